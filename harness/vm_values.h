#pragma once
// contract values: conversion between the engine's and the reference interpreter's, generators
#include "pbt.h"
#include "vm_model.h"
#include <vnx/vnx.h>
#include <mmx/vm/Engine.h>

using namespace mmx;
using pbt::Src; using pbt::Ctx; using pbt::show;
using vmm::V; using vmm::U;
typedef std::string str;

static uint256_t to_256(const U& n) { const U m = ~0ull; return uint256_t(uint128_t(uint64_t((n >> 192) & m), uint64_t((n >> 128) & m)), uint128_t(uint64_t((n >> 64) & m), uint64_t(n & m))); }
static U from_256(const uint256_t& n) { return (U(n.upper().upper()) << 192) | (U(n.upper().lower()) << 128) | (U(n.lower().upper()) << 64) | U(n.lower().lower()); }

static std::unique_ptr<vm::var_t> to_var(const V& v) {
	std::unique_ptr<vm::var_t> p;
	switch(v.type) {
		case vmm::REF: p = std::make_unique<vm::ref_t>(v.addr); break;
		case vmm::UINT: p = std::make_unique<vm::uint_t>(to_256(v.n)); break;
		case vmm::STRING: p = vm::binary_t::alloc(v.s); break;
		case vmm::BINARY: p = vm::binary_t::alloc(v.s.data(), v.s.size()); break;
		case vmm::ARRAY: { auto a = std::make_unique<vm::array_t>(v.size); a->address = v.addr; p = std::move(a); break; }
		case vmm::MAP: { auto a = std::make_unique<vm::map_t>(); a->address = v.addr; p = std::move(a); break; }
		default: p = std::make_unique<vm::var_t>(vm::vartype_e(v.type));
	}
	p->flags = v.flags; p->ref_count = v.rc;
	return p;
}
static V from_var(const vm::var_t& x) {
	V v(x.type); v.flags = x.flags; v.rc = x.ref_count;
	switch(x.type) {
		case vm::TYPE_REF: v.addr = ((const vm::ref_t&)x).address; break;
		case vm::TYPE_UINT: v.n = from_256(((const vm::uint_t&)x).value); break;
		case vm::TYPE_STRING: case vm::TYPE_BINARY: v.s = ((const vm::binary_t&)x).to_string(); break;
		case vm::TYPE_ARRAY: v.addr = ((const vm::array_t&)x).address; v.size = ((const vm::array_t&)x).size; break;
		case vm::TYPE_MAP: v.addr = ((const vm::map_t&)x).address; break;
		default: break;
	}
	return v;
}
static str hex(const str& s) { str o; for(unsigned char c : s) { char b[4]; snprintf(b, sizeof(b), "%02x", c); o += b; } return o; }
static str desc(const V& v) {
	std::ostringstream o;
	switch(v.type) {
		case vmm::NIL: o << "null"; break; case vmm::FALSE_: o << "false"; break; case vmm::TRUE_: o << "true"; break;
		case vmm::REF: o << "ref " << std::hex << v.addr; break;
		case vmm::UINT: o << v.n; break;
		case vmm::STRING: o << "str(" << v.s.size() << ") " << (v.s.size() > 40 ? hex(v.s.substr(0, 16)) + ".." : show(v.s)); break;
		case vmm::BINARY: o << "bin(" << v.s.size() << ") " << hex(v.s.substr(0, 40)); break;
		case vmm::ARRAY: o << "array " << std::hex << v.addr << std::dec << " size " << v.size; break;
		case vmm::MAP: o << "map " << std::hex << v.addr; break;
		default: o << "type " << v.type;
	}
	o << std::dec; if(v.flags) o << " flags " << v.flags; if(v.rc) o << " rc " << v.rc;
	return o.str();
}
static bool same(const V& a, const V& b, bool meta) { return vmm::cmp(a, b) == 0 && (a.type != vmm::ARRAY || a.size == b.size) && (!meta || (a.flags == b.flags && a.rc == b.rc)); }

static U gen_big(Src& s) {
	U n = 0;
	switch(s.weighted({5, 3, 3, 2, 1})) {
		case 0: return U(s.draw(300));
		case 1: n = (U(1) << unsigned(s.draw(257) % 256)); if(s.flip()) n += s.draw(3); else n -= s.draw(3); return n;
		case 2: return U(s.u64());
		case 3: for(int i = 0; i < 4; ++i) n = (n << 64) | U(s.draw(0)); return n >> unsigned(s.draw(256));
		default: return ~U(0) - U(s.draw(3));
	}
}
static V gen_val(Src& s, bool wild) {
	V v;
	switch(s.weighted({2, 2, 8, 6, 5, wild ? 3u : 0u, wild ? 2u : 0u, wild ? 2u : 0u})) {
		case 0: break;
		case 1: v.type = s.flip() ? vmm::TRUE_ : vmm::FALSE_; break;
		case 2: v = V::uint(gen_big(s)); break;
		case 3: v = V::str(s.text(s.size(s.chance(5) ? 300 : 12), "abc01x")); break;
		case 4: { const auto b = s.bytes(s.chance(30) ? 32 : s.size(s.chance(5) ? 300 : 10)); v = V::bin(str(b.begin(), b.end())); break; }
		case 5: v = V::ref(s.u64()); break;
		case 6: v = V::array(s.u32()); v.addr = s.u64(); break;
		case 7: v = V(vmm::MAP); v.addr = s.u64(); break;
	}
	return v;
}


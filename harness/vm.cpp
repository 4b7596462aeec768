// C20 values and instruction encoding, C21 engine vs reference interpreter, C22 hostile bytecode
#include "vm_values.h"

#include <vnx/vnx.h>
#include <mmx/vm/Engine.h>
#include <mmx/vm/StorageCache.h>
#include <mmx/vm/StorageProxy.h>
#include <mmx/vm_interface.h>
#include <mmx/contract/Binary.hxx>
#include <mmx/contract/method_t.hxx>
#include <mmx/signature_t.hpp>
#include <mmx/skey_t.hpp>
#include <mmx/error_code_e.hxx>
#include <mmx/secp256k1.hpp>

SETUP { mmx::secp256k1_init(); }

// ---------------------------------------------------------------- C20

PROPERTY(value_codec)
{
	const bool rc = s.flip(), vf = s.flip();
	std::vector<V> vals;
	const size_t n = 1 + s.size(6);
	str all; std::vector<size_t> ends;
	for(size_t i = 0; i < n; ++i) {
		V v = gen_val(s, true);
		v.flags = s.draw(256); v.rc = s.u32();
		vals.push_back(v);
		auto var = to_var(v);
		const auto out = vm::serialize(*var, rc, vf);
		all.append((const char*)out.first.get(), out.second);
		ends.push_back(all.size());
		NOTE(desc(v));
	}
	c.nontrivial(n > 1 || vals[0].type >= vmm::REF);
	size_t off = 0;
	for(size_t i = 0; i < n; ++i) {
		// an exact-size copy, so that an overread shows
		std::vector<uint8_t> buf(all.begin() + off, all.end());
		std::unique_ptr<vm::var_t> var;
		const auto len = vm::deserialize(var, buf.data(), buf.size(), rc, vf);
		CHECK_MSG(len == ends[i] - off, "value " << i << " (" << desc(vals[i]) << ") took " << len << " of " << ends[i] - off << " bytes");
		V want = vals[i]; if(!rc) want.rc = 0; if(!vf) want.flags = 0;
		CHECK_MSG(var && same(from_var(*var), want, true), "value " << i << ": wrote " << desc(want) << ", read " << (var ? desc(from_var(*var)) : "nothing"));
		CHECK_MSG(same(from_var(*vm::clone(*var)), want, true), "clone of " << desc(want) << " is " << desc(from_var(*vm::clone(*var))));
		for(size_t cut = 0; cut < len; cut += 1 + cut / 8) {
			std::vector<uint8_t> part(buf.begin(), buf.begin() + cut);
			std::unique_ptr<vm::var_t> x; bool ok = false;
			try { vm::deserialize(x, part.data(), part.size(), rc, vf); ok = true; } catch(const std::exception&) {}
			CHECK_MSG(!ok, "value cut to " << cut << " of " << len << " bytes was accepted as " << desc(from_var(*x)));
		}
		off = ends[i];
	}
}

PROPERTY(value_order)
{
	// a small pool with near-equal values
	std::vector<V> vals;
	const size_t n = 2 + s.draw(6);
	for(size_t i = 0; i < n; ++i) {
		V v = i && s.chance(60) ? vals[s.index(i)] : gen_val(s, true);
		if(i && s.chance(70)) switch(v.type) {
			case vmm::UINT: v.n ^= U(1) << unsigned(s.draw(256)); break;
			case vmm::STRING: case vmm::BINARY: if(s.flip()) v.s += char(s.draw(256)); else if(v.s.size()) v.s[s.index(v.s.size())] ^= char(1 << s.draw(8)); if(s.chance(20)) v.type = v.type == vmm::STRING ? vmm::BINARY : vmm::STRING; break;
			case vmm::REF: case vmm::ARRAY: case vmm::MAP: v.addr ^= 1ull << s.draw(64); break;
			default: v.type = s.draw(3);
		}
		vals.push_back(v);
		NOTE(desc(v));
	}
	bool diff = false;
	for(auto& a : vals) for(auto& b : vals) {
		auto x = to_var(a), y = to_var(b);
		const int got = vm::compare(*x, *y), want = vmm::cmp(a, b);
		CHECK_MSG((got < 0) == (want < 0) && (got > 0) == (want > 0), "compare(" << desc(a) << ", " << desc(b) << ") = " << got << ", expected sign of " << want);
		CHECK_MSG((*x < *y) == (want < 0) && (*x == *y) == (want == 0) && (*x != *y) == (want != 0) && (*x > *y) == (want > 0), "operators disagree for " << desc(a) << " / " << desc(b));
		if(a.type != vmm::ARRAY || b.type != vmm::ARRAY) {
			const auto p = vm::serialize(*x, false, false), q = vm::serialize(*y, false, false);
			const bool eq = p.second == q.second && !memcmp(p.first.get(), q.first.get(), p.second);
			CHECK_MSG(eq == (want == 0), "storage keys of " << desc(a) << " and " << desc(b) << (eq ? " are the same" : " differ"));
		}
		diff |= want != 0;
	}
	CHECK_MSG(vm::compare((vm::var_t*)nullptr, nullptr) == 0 && vm::compare(nullptr, to_var(vals[0]).get()) < 0 && vm::compare(to_var(vals[0]).get(), nullptr) > 0, "order of the missing value");
	c.nontrivial(diff);
}

static std::vector<uint8_t> exact(const std::vector<uint8_t>& v) { std::vector<uint8_t> r(v); r.shrink_to_fit(); return r; }

static const uint8_t OPS[] = {0,1,2,3,4,5,6,7,8,0x20,0x21,0x22,0x23,0x24,0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x60,0x61,0x62,0x63,0x64,0x65,0x80,0x81,0x82,0x83,0x84,0x85,0x86,0xA0,0xA1,0xA2,0xA3,0xA4,0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7};
static int nargs(uint8_t op) {
	switch(op) {
		case 0: case 8: return 0;
		case 1: case 4: return 1;
		case 2: case 3: case 5: case 6: case 7: case 0x40: case 0x80: case 0x81: case 0x84: case 0x85: case 0x86: case 0xA3: case 0xC0: case 0xC3: case 0xC4: case 0xC7: return 2;
		case 0xA0: case 0xA2: case 0xA4: case 0xC1: case 0xC5: return 4;
	}
	return 3;
}

PROPERTY(code_codec)
{
	std::vector<vm::instr_t> code;
	const bool large = s.chance(3);
	const size_t n = large ? 2000 + s.draw(30000) : s.size(60);
	const uint64_t pool = large ? (s.flip() ? 0x7FFF + 0x200 : 400) : 1 + s.draw(300), base = s.flip() ? 0 : s.flip() ? 0x7F00 : 0xFFFFFF00 - pool;
	uint64_t lcg = s.draw(0);
	auto sym = [&]() -> uint32_t {
		if(large) { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; return base + (lcg >> 33) % pool; }
		switch(s.weighted({6, 2, 2, 1})) { case 0: return base + s.draw(pool); case 1: return 0x7FFC + s.draw(8); case 2: return vm::MEM_STACK + s.draw(8); default: return s.u32(); }
	};
	for(size_t i = 0; i < n; ++i) {
		const uint8_t op = large ? OPS[(lcg = lcg * 6364136223846793005ull + 1, (lcg >> 33) % sizeof(OPS))] : OPS[s.index(sizeof(OPS))];
		vm::instr_t x(vm::opcode_e(op), large ? uint8_t(lcg >> 20) : uint8_t(s.draw(256)));
		const int k = nargs(op);
		if(k > 0) x.a = sym(); if(k > 1) x.b = sym(); if(k > 2) x.c = sym(); if(k > 3) x.d = sym();
		code.push_back(x);
	}
	const auto data = exact(vm::serialize(code));
	NOTE(n << " instructions, symbols from " << base << " + " << pool << ", " << data.size() << " bytes");
	std::vector<vm::instr_t> out;
	const auto len = vm::deserialize(out, data.data(), data.size());
	CHECK_MSG(len == data.size(), "decoded " << len << " of " << data.size() << " bytes");
	CHECK_MSG(out.size() == n, "decoded " << out.size() << " of " << n << " instructions");
	for(size_t i = 0; i < n; ++i) {
		const auto& a = code[i]; const auto& b = out[i];
		CHECK_MSG(a.code == b.code && a.flags == b.flags && a.a == b.a && a.b == b.b && a.c == b.c && a.d == b.d, "instruction " << i << ": wrote " << vm::to_string(a) << " read " << vm::to_string(b));
	}
	if(!large && n) {
		std::vector<uint8_t> part(data.begin(), data.begin() + s.index(data.size()));
		bool ok = false; std::vector<vm::instr_t> tmp;
		try { vm::deserialize(tmp, exact(part).data(), part.size()); ok = true; } catch(const std::exception&) {}
		CHECK_MSG(!ok, "code cut to " << part.size() << " of " << data.size() << " bytes was accepted");
	}
	c.nontrivial(n > 1);
	if(large) c.label("large program");
}

// ---------------------------------------------------------------- program generator

struct prog_t {
	std::vector<V> consts;
	std::vector<vmm::Instr> code;
	std::vector<uint8_t> binary() const {
		std::vector<vm::instr_t> v;
		for(auto& i : code) v.emplace_back(vm::opcode_e(i.code), i.flags, i.a, i.b, i.c, i.d);
		return vm::serialize(v);
	}
	std::vector<uint8_t> constant() const {
		std::vector<uint8_t> o;
		for(auto& v : consts) { const auto x = vm::serialize(*to_var(v), false, false); o.insert(o.end(), x.first.get(), x.first.get() + x.second); }
		return o;
	}
};

static str addr_bytes(int i) { return str(31, char(0x11 * (i + 1))) + char(i); }
static str addr_text(int i) { addr_t a; a = addr_t::from_bytes(addr_bytes(i).data()); return a.to_string(); }

struct sig_sample { str msg, key, sig; };
static const std::vector<sig_sample>& sigs() {
	static std::vector<sig_sample> v = []{
		std::vector<sig_sample> o;
		for(int i = 0; i < 2; ++i) {
			const hash_t seed("key" + std::to_string(i)); skey_t sk; memcpy(sk.data(), seed.data(), 32);
			const hash_t msg("msg" + std::to_string(i)); const pubkey_t pk(sk); const auto sig = signature_t::sign(sk, msg);
			o.push_back({str((const char*)msg.data(), 32), str((const char*)pk.data(), pk.size()), str((const char*)sig.data(), sig.size())});
		}
		return o;
	}();
	return v;
}

struct gen_t {
	Src& s; bool wild, nested = false;
	prog_t p;
	enum { ANY = -1, CARR = 100, CMAP, RARR, RMAP, ADDR32 };
	std::map<uint32_t, int> kind;		// guessed content of slots
	gen_t(Src& s, bool wild) : s(s), wild(wild) {}

	uint32_t konst(const V& v, int k) { p.consts.push_back(v); kind[p.consts.size() - 1] = k; return p.consts.size() - 1; }
	// constants belong to the contract, not to one program
	void constants() {
		konst(V(), vmm::NIL); konst(V::array(0), CARR); konst(V(vmm::MAP), CMAP);
		for(int i = 0; i < 3; ++i) konst(V::uint(i), vmm::UINT);
		konst(V::str("name"), vmm::STRING); konst(V::str("memo"), vmm::STRING);
		konst(V::bin(addr_bytes(0)), ADDR32); konst(V::bin(addr_bytes(1)), ADDR32);
		konst(V::boolean(true), vmm::TRUE_); konst(V::boolean(false), vmm::FALSE_);
		const auto& g = sigs()[s.index(2)];
		konst(V::bin(g.msg), ADDR32); konst(V::bin(g.key), vmm::BINARY); konst(V::bin(g.sig), vmm::BINARY);
		if(wild) {			// addresses that the engine itself works with (15, 16)
			static const uint64_t at[] = {17, vmm::NEXT_ALLOC, vmm::NEXT_ALLOC, vmm::DYN, vmm::DYN + 1, vmm::STACK, vmm::STACK + 9, vmm::STATIC, vmm::EXTERN, 1, vmm::HEAP};
			konst(V::ref(at[s.index(11)]), vmm::REF);
			konst(V::uint(s.flip() ? at[s.index(11)] : uint64_t(-1) - s.draw(3)), vmm::UINT);
			konst(V::array(s.flip() ? ~0u - s.draw(9) : s.draw(3)), CARR);
		}
		const int n = 2 + s.draw(8);
		for(int i = 0; i < n; ++i) {
			V v;
			switch(s.weighted({5, 2, 2, wild ? 3u : 0u})) {
				case 0: v = gen_val(s, false); break;
				case 1: v = V::str((s.flip() ? "0x" : s.flip() ? "0b" : "") + s.text(s.draw(s.chance(5) ? 80 : 9), s.flip() ? "01" : "09afAFz")); break;
				case 2: v = V::str(s.chance(80) ? addr_text(s.draw(3)) : "mmx1qqqq"); break;
				default: v = s.flip() ? V::ref(s.flip() ? vmm::NEXT_ALLOC + s.draw(2) : s.flip() ? vmm::DYN + s.draw(4) : s.flip() ? vmm::STACK + s.draw(6) : s.flip() ? vmm::STATIC + s.draw(4) : s.draw(20)) : s.flip() ? V::array(s.flip() ? s.draw(4) : s.u32()) : V(vmm::MAP);
			}
			konst(v, v.type == vmm::BINARY && v.s.size() == 32 ? int(ADDR32) : v.type == vmm::ARRAY ? int(CARR) : v.type == vmm::MAP ? int(CMAP) : v.type);
		}
		static const uint64_t edges[] = {~0ull, 1ull << 63, 1ull << 32, 1ull << 31, 65536, 32768, 256};
		konst(V::uint(edges[s.weighted({6, 1, 2, 1, 1, 1, 1})] - s.draw(s.flip() ? 4 : 300)), vmm::UINT);
		if(amplify) konst(V::uint(s.flip() ? 96 + s.draw(9) : s.draw(300)), vmm::UINT);	// iterations
	}
	// loops whose body nests, doubles or accumulates
	bool amplify = false;
	std::map<uint32_t, int> role;
	static uint32_t few_at(int i) { return i < 3 ? vmm::STACK + i : vmm::STATIC + i - 3; }
	uint32_t few(int want = ANY) {
		if(want != ANY && s.chance(92)) { std::vector<uint32_t> v; for(auto& r : role) if(r.second == want) v.push_back(r.first); if(!v.empty()) return v[s.index(v.size())]; }
		return few_at(s.draw(5));
	}
	void growth() {
		const uint32_t t = vmm::STACK + 7, ctr = vmm::STACK + 8;
		switch(s.weighted({6, 3, 4, 4, 3, 4, 2, 3, 3, 2, 1, 2})) {
			case 0: { const auto a = few(RARR); emit(3, 0, t, 1); emit(0x85, 1, t, a); emit(2, 0, a, t); break; }
			case 1: { const auto a = few(RMAP); emit(3, 0, t, 2); emit(0x83, 1, t, s.flip() ? 6 : ctr, a); emit(2, 0, a, t); break; }
			case 2: { const auto a = few(vmm::STRING); emit(0xA1, 0, a, a, few(vmm::STRING)); break; }
			case 3: emit(0x85, 1, few(RARR), few()); break;
			case 4: { const int k = s.flip() ? RARR : RMAP; const auto b = few(k); emit(3, s.chance(80) ? 2 : 0, b, few(k)); break; }
			case 5: emit(0x83, 1, few(RMAP), ctr, few()); break;
			case 6: emit(0x84, 1, few(RMAP), ctr); break;
			case 7: { const bool m = s.flip(); emit(0x82, 2 | (s.flip() ? 16 : 0), s.chance(80) ? t : few(), few(m ? RMAP : RARR), s.flip() ? 3 : int(ctr)); break; }
			case 8: { const bool m = s.chance(80); emit(0x81, m ? 2 : 0, s.chance(80) ? t : few(), few(RARR)); break; }
			case 9: emit(0xA0, 0, few(vmm::STRING), ctr, 7); break;
			case 10: emit(1, 0, few()); break;
			default: emit(2, 0, few(), few());
		}
	}
	void grow_program() {
		const uint32_t k = p.consts.size() - 1, ctr = vmm::STACK + 8;
		for(int i = 0; i < 5; ++i) if(i < 3 || s.chance(60)) switch(s.draw(3)) {
			case 0: emit(3, 0, few_at(i), 1); role[few_at(i)] = RARR; break;
			case 1: emit(3, 0, few_at(i), 2); role[few_at(i)] = RMAP; break;
			default: emit(2, 0, few_at(i), 6); role[few_at(i)] = vmm::STRING;
		}
		{ vmm::Machine m; if(trial(m, p)) { learn(m); for(int i = 0; i < 5; ++i) if(kind.count(few_at(i))) role[few_at(i)] = kind[few_at(i)]; } }
		for(int l = 1 + s.draw(3); l > 0; --l) {
			const auto old = p.code;
			for(int r = 0; r < 5; ++r) {
				if(s.chance(75)) {
					emit(2, 0, ctr, s.chance(85) ? k : 5);
					const size_t top = p.code.size();
					for(int j = s.draw(3); j >= 0; --j) growth();
					emit(0x21, 0, ctr, ctr, 4); emit(5, 0, top, ctr);
				} else for(int j = s.draw(3); j >= 0; --j) if(s.flip()) growth(); else emit(2, 0, few(), s.draw(6));
				vmm::Machine m;
				if(trial(m, p)) { learn(m); for(int i = 0; i < 5; ++i) { role.erase(few_at(i)); if(kind.count(few_at(i))) role[few_at(i)] = kind[few_at(i)]; } break; }
				if(s.chance(15)) { l = 0; break; }
				p.code = old;
			}
		}
		p.code.push_back({8, 0, 0, 0, 0, 0});
	}
	uint32_t slot(bool dst) {		// any address
		switch(s.weighted({12, 5, dst ? (wild ? 1u : 0u) : 6u, dst ? 0u : 1u, wild ? 1u : 0u})) {
			case 0: return vmm::STACK + s.draw(7);
			case 1: return vmm::STATIC + s.draw(5);
			case 2: return s.draw(p.consts.size());
			case 3: return vmm::EXTERN + s.draw(7);
			default: return s.flip() ? s.u32() : vmm::STATIC - 1 - s.draw(3);
		}
	}
	static bool fits(int have, int want) {
		if(have == want || want == ANY) return true;
		if(want == vmm::BINARY) return have == ADDR32;
		if(want == vmm::TRUE_ || want == vmm::FALSE_) return have == vmm::TRUE_ || have == vmm::FALSE_;
		return false;
	}
	uint32_t find(int want) {		// a slot believed to hold that kind
		if(s.chance(wild ? 12 : 3)) return slot(false);
		std::vector<uint32_t> c, live;
		for(auto& e : kind) if(fits(e.second, want)) { c.push_back(e.first); if(e.first >= vmm::EXTERN) live.push_back(e.first); }
		if(!live.empty() && s.chance(70)) return live[s.index(live.size())];
		return c.empty() ? slot(false) : c[s.index(c.size())];
	}
	void emit(uint8_t op, uint8_t fl, uint32_t a = 0, uint32_t b = 0, uint32_t c = 0, uint32_t d = 0) {
		if(s.chance(wild ? 6 : 1)) fl ^= 1 << s.draw(7);
		p.code.push_back({op, fl, a, b, c, d});
	}
	// an immediate operand, or the variable that holds it
	uint32_t imm(uint32_t x, uint8_t flag, uint8_t& fl, int chance = 8) { if(!s.chance(chance)) return x; fl |= flag; return s.chance(35) ? p.consts.size() - (amplify ? 2 : 1) : find(vmm::UINT); }
	void set(uint32_t a, int k) { if(a >= vmm::EXTERN) kind[a] = k; }
	uint32_t dst() { return slot(true); }
	uint32_t scalar() { static const int k[] = {vmm::UINT, vmm::STRING, vmm::BINARY, vmm::TRUE_, vmm::NIL, ADDR32}; return find(k[s.index(6)]); }
	uint32_t entry_src() { return s.chance(35) ? find(s.flip() ? RARR : RMAP) : scalar(); }
	uint32_t key_src() { return s.chance(10) ? find(ANY) : find(s.flip() ? vmm::UINT : s.flip() ? vmm::STRING : ADDR32); }
	// container operand: address and flag
	std::pair<uint32_t, bool> box(bool map) {
		const int r = map ? RMAP : RARR, d = map ? CMAP : CARR;
		bool have = false; for(auto& e : kind) have |= e.second == r;
		if(have && s.chance(80)) return {find(r), true};
		return {find(d), false};
	}
	void one() {
		static const int conv_from[] = {vmm::UINT, vmm::STRING, vmm::BINARY, ADDR32, vmm::NIL, vmm::TRUE_};
		switch(s.weighted({6, 10, 8, 3, 3, 6, 6, 7, 3, 6, 4, 4, 4, 4, 2, 2, 3, 2, 2, 2, 2, 1, 1})) {
			case 0: { const auto a = dst(), b = s.flip() ? scalar() : find(ANY); emit(2, 0, a, b); set(a, kind.count(b) ? kind[b] : int(vmm::NIL)); break; }
			case 1: { const auto a = dst(); const uint8_t op = 0x20 + s.draw(5); emit(op, s.chance(30) ? 32 : 0, a, find(vmm::UINT), find(vmm::UINT)); set(a, vmm::UINT); break; }
			case 2: { const auto a = dst(); const bool map = s.flip(); emit(3, 0, a, map ? 2 : 1); set(a, map ? RMAP : RARR); break; }
			case 3: { const auto a = dst(); emit(0x44 + s.draw(2), 0, a, find(vmm::UINT), find(vmm::UINT)); set(a, vmm::UINT); break; }
			case 4: { const auto a = dst(); const bool r = s.flip(); emit(0x46 + s.draw(2), r ? 4 : 0, a, find(vmm::UINT), r ? find(vmm::UINT) : s.chance(80) ? s.draw(260) : s.u32()); set(a, vmm::UINT); break; }
			case 5: { const auto a = dst(); const bool bw = s.flip(); const int k = bw ? (s.chance(70) ? vmm::UINT : ADDR32) : ANY; const uint8_t op = 0x40 + s.draw(4); const auto b = find(k);
				if(op == 0x40) emit(op, bw ? 64 : 0, a, b); else emit(op, bw ? 64 : 0, a, b, find(k)); set(a, bw ? k : int(vmm::TRUE_)); break; }
			case 6: { const auto a = dst(); const int k = s.flip() ? vmm::UINT : s.flip() ? vmm::STRING : s.flip() ? int(ADDR32) : int(ANY); emit(0x60 + s.draw(k == ANY ? 2 : 6), 0, a, find(k), find(k)); set(a, vmm::TRUE_); break; }
			case 7: { const bool map = s.flip(); const auto x = box(map); emit(0x83, x.second ? 1 : 0, x.first, map ? key_src() : s.chance(80) ? 3 + s.draw(3) : find(vmm::UINT), entry_src()); break; }
			case 8: { const bool map = s.flip(); const auto x = box(map); if(map) { emit(0x84, x.second ? 1 : 0, x.first, key_src()); } else { const auto a = dst(); emit(0x86, x.second ? 2 : 0, a, x.first); set(a, vmm::UINT); } break; }
			case 9: { const auto x = box(false); emit(0x85, x.second ? 1 : 0, x.first, entry_src()); break; }
			case 10: { const bool map = s.flip(); const auto x = box(map); const auto a = dst(); emit(0x82, (x.second ? 2 : 0) | (s.chance(15) ? 16 : 0), a, x.first, map ? key_src() : s.chance(80) ? 3 + s.draw(3) : find(vmm::UINT)); set(a, s.flip() ? vmm::UINT : int(RARR)); break; }
			case 11: { const auto a = dst(); emit(0x80, s.chance(20) ? 2 : 0, a, find(ANY)); set(a, vmm::UINT); break; }
			case 12: { const auto a = dst(); const bool box_ = s.flip(); const auto x = box(false); const auto b = box_ ? x.first : find(s.flip() ? vmm::STRING : vmm::BINARY); emit(0x81, box_ && x.second ? 2 : 0, a, b); set(a, vmm::UINT); break; }
			case 13: {
				const auto a = dst(), b = find(conv_from[s.index(6)]);
				static const uint32_t to[] = {5, 6, 7, 8, 10};
				const uint32_t t = to[s.index(5)];
				static const uint32_t sub[] = {0, 1, 2, 3, 4, 11, 12, 10, 9};
				uint8_t fl = 0; const auto to_ = imm(t | (s.flip() ? sub[s.index(9)] << 8 : 0), 4, fl, 3), from_ = imm(s.flip() ? sub[s.index(9)] : 0, 8, fl, 3);
				emit(0xA0, fl, a, b, to_, from_);
				set(a, t == 5 ? int(vmm::TRUE_) : t == 6 ? int(vmm::UINT) : t == 7 ? int(vmm::STRING) : t == 8 ? int(ADDR32) : int(ADDR32)); break;
			}
			case 14: { const auto a = dst(); const int k = s.weighted({3, 3, 3}); if(k == 2) { const auto x = box(false), y = box(false); emit(0xA1, (x.second ? 2 : 0) | (y.second ? 4 : 0), a, x.first, y.first); set(a, RARR); } else { emit(0xA1, 0, a, find(k ? vmm::STRING : vmm::BINARY), find(k ? vmm::STRING : vmm::BINARY)); set(a, k ? vmm::STRING : vmm::BINARY); } break; }
			case 15: { const auto a = dst(); const int k = s.flip() ? vmm::STRING : int(ADDR32); uint8_t fl = 0; const auto n = imm(s.draw(6), 4, fl, 20), at = imm(s.draw(4), 8, fl, 25); emit(0xA2, fl, a, find(k), n, at); set(a, k == ADDR32 ? int(vmm::BINARY) : k); break; }
			case 16: { const auto a = dst(); if(s.chance(70)) emit(0xA3, 0, a, find(s.flip() ? vmm::STRING : vmm::BINARY)); else emit(0xA4, 0, a, s.chance(80) ? 12 : find(ADDR32), s.chance(80) ? 13 : find(vmm::BINARY), s.chance(80) ? 14 : find(vmm::BINARY)); set(a, s.flip() ? int(ADDR32) : int(vmm::TRUE_)); break; }
			case 17: emit(0xC1, 0, find(ADDR32), find(vmm::UINT), find(ADDR32), s.chance(70) ? 7 : find(s.flip() ? vmm::STRING : vmm::NIL)); break;
			case 18: if(s.flip()) emit(0xC2, 0, find(ADDR32), find(vmm::UINT), s.flip() ? 0 : 7); else { const auto a = dst(); emit(0xC7, 0, a, find(ADDR32)); set(a, vmm::UINT); } break;
			case 19: if(s.flip()) { uint8_t fl = 0; const auto l = imm(s.draw(6), 1, fl); emit(0xC0, fl, l, find(vmm::STRING)); } else emit(0xC3, 0, find(vmm::STRING), s.draw(6)); break;
			case 20: { if(s.flip()) { emit(1, 0, s.flip() ? slot(true) : find(RARR)); kind.erase(p.code.back().a); } else if(s.chance(30)) { uint8_t fl = 0; const auto e = imm(s.draw(100), 2, fl); emit(0xC4, fl, find(vmm::STRING), e); } else { const auto a = dst(); emit(0xC6, 0, a, find(ADDR32), 6); set(a, vmm::STRING); } break; }
			case 21: { uint8_t fl = 0; const auto o = imm(s.draw(8), 4, fl), n = imm(s.draw(4), 8, fl); emit(0xC5, fl, 6, 7, o, n); break; }
			case 22: { const auto a = dst(); const auto x = box(s.flip()); if(s.flip()) { emit(2, x.second ? 2 : 0, a, x.first); set(a, s.flip() ? int(CARR) : int(CMAP)); } else { emit(3, x.second ? 2 : 0, a, x.first); set(a, s.flip() ? int(RARR) : int(RMAP)); } break; }
		}
	}
	// execution guided: a unit that fails in the reference interpreter is mostly taken back, and the content of the slots is known
	std::function<bool(vmm::Machine&, const prog_t&)> trial;		// runs up to the end of the code, false if it fails before
	void learn(vmm::Machine& m) {
		kind.clear();
		auto type_of = [&](uint64_t a, bool follow) -> int {
			const V* v = nullptr;
			auto i = m.mem.find(a);
			if(i != m.mem.end()) { if(i->second && !(i->second->flags & vmm::DELETED)) v = &*i->second; }
			else if(a >= vmm::STATIC) { auto j = m.st->mem.find(a); if(j != m.st->mem.end() && !(j->second.flags & vmm::DELETED)) v = &j->second; }
			if(!v) return -2;
			if(v->type == vmm::REF) {
				if(!follow) return vmm::REF;
				auto k = m.mem.find(v->addr); const V* t = nullptr;
				if(k != m.mem.end()) { if(k->second) t = &*k->second; } else { auto j = m.st->mem.find(v->addr); if(j != m.st->mem.end()) t = &j->second; }
				return t && t->type == vmm::ARRAY ? int(RARR) : t && t->type == vmm::MAP ? int(RMAP) : int(vmm::REF);
			}
			if(v->type == vmm::BINARY && v->s.size() == 32) return ADDR32;
			return v->type == vmm::ARRAY ? int(CARR) : v->type == vmm::MAP ? int(CMAP) : v->type;
		};
		auto put = [&](uint64_t a) { const int k = type_of(a, true); if(k >= -1) kind[a] = k; };
		for(size_t i = 0; i < p.consts.size(); ++i) put(i);
		for(int i = 0; i < 9; ++i) put(vmm::STACK + i);
		for(int i = 0; i < 7; ++i) { put(vmm::STATIC + i); put(vmm::EXTERN + i); }
	}
	void unit() {
		const size_t at = p.code.size();
		if(nested && s.chance(18)) {		// remote call with arguments
			const uint32_t off = 2 + s.draw(5), n = s.draw(4);
			emit(2, 0, vmm::STACK + off, 3);
			for(uint32_t j = 1; j <= n; ++j) emit(2, 0, vmm::STACK + off + j, wild && s.chance(8) ? 15 : s.chance(40) ? find(s.flip() ? RARR : RMAP) : find(s.chance(30) ? int(ANY) : int(vmm::UINT)));
			emit(0xC5, 0, 6 + s.draw(2), 7, off, n);
		}
		else if(wild && s.chance(4)) { emit(2, 1, 15, s.flip() ? 16 : find(ANY)); }
		else if(s.chance(6)) {			// skip forward
			emit(5 + s.draw(2), 0, 0, find(s.flip() ? vmm::TRUE_ : vmm::UINT));
			const int k = 1 + s.draw(3); for(int j = 0; j < k; ++j) one();
			p.code[at].a = p.code.size();
		} else if(s.chance(3)) {	// counted loop on a stack slot
			const uint32_t ctr = vmm::STACK + 8; emit(2, 0, ctr, 3 + s.draw(3));
			const size_t top = p.code.size();
			const int k = 1 + s.draw(3); for(int j = 0; j < k; ++j) one();
			emit(0x21, 0, ctr, ctr, 4); emit(5, 0, top, ctr);
		} else if(!subs.empty() && s.chance(8)) emit(7, 0, subs[s.index(subs.size())], s.draw(8));
		else one();
	}
	std::vector<uint32_t> subs;
	void sub(int n) { subs.push_back(p.code.size()); for(int i = 0; i < n; ++i) unit(); p.code.push_back({8, 0, 0, 0, 0, 0}); }
	// keep: percentage of failing units that stay (they end the program)
	void generate(int n, int keep) {
		for(auto e : {0, 2, 5}) kind[vmm::EXTERN + e] = e == 0 ? int(vmm::UINT) : int(ADDR32);
		const int ns = s.weighted({5, 2, 1});
		if(ns) { p.code.push_back({4, 0, 0, 0, 0, 0}); for(int i = 0; i < ns; ++i) sub(1 + s.draw(5)); p.code[0].a = p.code.size(); }
		{ vmm::Machine m; if(trial(m, p)) learn(m); }
		for(int i = 0; i < n; ++i) {
			const auto old = p.code;
			for(int t = 0; t < 6; ++t) {
				unit();
				vmm::Machine m;
				if(trial(m, p)) { learn(m); break; }
				if(s.chance(keep)) { i = n; break; }
				p.code = old;
			}
		}
		p.code.push_back({8, 0, 0, 0, 0, 0});
	}
};

static str dump(const prog_t& p) {
	std::ostringstream o;
	for(size_t i = 0; i < p.consts.size(); ++i) o << "  const " << std::hex << i << std::dec << " = " << desc(p.consts[i]) << "\n";
	for(size_t i = 0; i < p.code.size(); ++i) { const auto& x = p.code[i]; o << "  " << i << ": " << vm::to_string(vm::instr_t(vm::opcode_e(x.code), x.flags, x.a, x.b, x.c, x.d)) << " fl " << int(x.flags) << "\n"; }
	return o.str();
}

// keeps values the way the database does (serialized, without reference counts)
struct MemStorage : vm::Storage {
	typedef std::vector<uint8_t> raw;
	std::map<std::pair<addr_t, uint64_t>, raw> mem;
	std::map<std::tuple<addr_t, uint64_t, uint64_t>, raw> ent;
	std::map<std::pair<addr_t, raw>, uint64_t> idx;
	std::map<std::pair<addr_t, addr_t>, uint128> bal;
	static raw ser(const vm::var_t& v, bool vf) { auto x = vm::serialize(v, false, vf); return raw(x.first.get(), x.first.get() + x.second); }
	static std::unique_ptr<vm::var_t> de(const raw& r) { std::unique_ptr<vm::var_t> v; vm::deserialize(v, r.data(), r.size(), false, true); return v; }
	std::unique_ptr<vm::var_t> read(const addr_t& c, const uint64_t a) const override { auto i = mem.find({c, a}); return i == mem.end() ? nullptr : de(i->second); }
	std::unique_ptr<vm::var_t> read(const addr_t& c, const uint64_t a, const uint64_t k) const override { auto i = ent.find({c, a, k}); return i == ent.end() ? nullptr : de(i->second); }
	void write(const addr_t& c, const uint64_t a, const vm::var_t& v) override { if(v.flags & vm::FLAG_KEY) idx[{c, ser(v, false)}] = a; mem[{c, a}] = ser(v, true); }
	void write(const addr_t& c, const uint64_t a, const uint64_t k, const vm::var_t& v) override { ent[{c, a, k}] = ser(v, true); }
	uint64_t lookup(const addr_t& c, const vm::var_t& v) const override { auto i = idx.find({c, ser(v, false)}); return i == idx.end() ? 0 : i->second; }
	void set_balance(const addr_t& c, const addr_t& k, const uint128& n) override { bal[{c, k}] = n; }
	std::unique_ptr<uint128> get_balance(const addr_t& c, const addr_t& k) override { auto i = bal.find({c, k}); return i == bal.end() ? nullptr : std::make_unique<uint128>(i->second); }
};

struct jval { int kind = 0; U n; str s; std::vector<jval> list; std::vector<std::pair<str, jval>> obj; };
static jval gen_json(Src& s, int depth) {
	jval j; j.kind = s.weighted({3, 2, 1, 1, depth ? 2u : 0u, depth ? 2u : 0u});
	switch(j.kind) {
		case 0: j.n = s.u64(); break;
		case 1: j.s = s.text(s.size(8), "abx0"); break;
		case 4: { const int n = s.draw(4); for(int i = 0; i < n; ++i) j.list.push_back(gen_json(s, depth - 1)); break; }
		case 5: { const int n = s.draw(3); for(int i = 0; i < n; ++i) j.obj.push_back({str(1, 'a' + i), gen_json(s, depth - 1)}); break; }
	}
	return j;
}
static vnx::Variant to_variant(const jval& j) {
	switch(j.kind) {
		case 0: return vnx::Variant(uint64_t(j.n));
		case 1: return vnx::Variant(j.s);
		case 2: return vnx::Variant(true);
		case 3: return vnx::Variant(nullptr);
		case 4: { std::vector<vnx::Variant> v; for(auto& x : j.list) v.push_back(to_variant(x)); return vnx::Variant(v); }
		default: { vnx::Object o; for(auto& x : j.obj) o[x.first] = to_variant(x.second); return vnx::Variant(o); }
	}
}
static V model_value(vmm::Machine& m, const jval& j) {
	switch(j.kind) {
		case 0: return V::uint(j.n); case 1: return V::str(j.s); case 2: return V::boolean(true); case 3: return V();
		case 4: { const auto a = m.alloc(); m.assign(a, V::array(j.list.size())); for(size_t i = 0; i < j.list.size(); ++i) m.write_entry(a, i, model_value(m, j.list[i])); return V::ref(a); }
		default: { const auto a = m.alloc(); m.assign(a, V(vmm::MAP)); for(auto& x : j.obj) { const auto k = m.lookup(V::str(x.first), false); m.write_entry(a, k, model_value(m, x.second)); } return V::ref(a); }
	}
}

extern "C" size_t __sanitizer_get_current_allocated_bytes();

struct run_t {
	int64_t memory = 0;		// held by the engine and the cache when the run ends
	bool ok = false; str what; uint64_t gas = 0; uint32_t error_code = 0, error_addr = -1;
	std::vector<vmm::Out> outputs, mints;
	std::vector<std::pair<uint64_t, str>> logs; std::vector<std::pair<str, uint64_t>> events;
	V result; bool has_result = false;
};
static str name_of(const addr_t& a) { return str((const char*)a.data(), 32); }
static U conv_amount(const uint128& n) { const uint128_t x(n); return (U(uint64_t(x >> 64)) << 64) | U(uint64_t(x & uint128_t(~uint64_t(0)))); }
static vmm::Out conv_out(const txout_t& o) { vmm::Out r; r.contract = name_of(o.contract); r.address = name_of(o.address); r.amount = U(uint64_t(uint128_t(o.amount) >> 64)) << 64 | U(uint64_t(uint128_t(o.amount) & uint128_t(~uint64_t(0)))); if(o.memo) r.memo = *o.memo; return r; }

static void set_sig(vmm::Machine& m) {
	m.verify_sig = [](const str& msg, const str& key, const str& sig) -> bool {
		try {
			return signature_t(std::vector<uint8_t>(sig.begin(), sig.end())).verify(pubkey_t(std::vector<uint8_t>(key.begin(), key.end())), hash_t::from_bytes(std::vector<uint8_t>(msg.begin(), msg.end())));
		} catch(const std::exception& ex) { vmm::fail(ex.what()); }
	};
	m.addr_to_text = [](const str& b) { addr_t a; a = addr_t::from_bytes(b.data()); return a.to_string(); };
	m.text_to_addr = [](const str& t) { try { return name_of(addr_t(t)); } catch(const std::exception& ex) { vmm::fail(ex.what()); } };
}


struct world_t { std::vector<addr_t> self; std::shared_ptr<MemStorage> db = std::make_shared<MemStorage>(); std::map<str, vmm::Store> stores; };
struct call_t { uint64_t limit; unsigned version; bool read_only; std::vector<jval> args; uint32_t entry; };
static const uint64_t CALL_COST = 3000;

static std::shared_ptr<contract::Binary> make_binary(const std::vector<uint8_t>& constant, const std::vector<uint8_t>& code) {
	auto b = contract::Binary::create(); b->constant = constant; b->binary = code; return b;
}

// runs contracts the way a node does: shared storage cache, one engine per call
struct engine_host {
	world_t& w; run_t& r; std::vector<std::shared_ptr<contract::Binary>> bins; bool nested; const call_t& k;
	std::shared_ptr<vm::StorageCache> cache; int depth = 0;
	std::map<int, uint64_t> callee; uint64_t calls = 0;
	static int target(int self, const str& name, int n) { return name == "name" ? (self + 1) % n : name == "memo" ? (self + n - 1) % n : self; }
	std::shared_ptr<vm::Engine> engine(int ci, bool ro) {
		auto e = std::make_shared<vm::Engine>(w.self[ci], cache, ro, k.version);
		e->log_func = [this](uint32_t l, const str& m) { r.logs.push_back({l, m}); };
		e->event_func = [this](const str& n, const uint64_t d) { r.events.push_back({n, d}); };
		return e;
	}
	void load(const std::shared_ptr<vm::Engine>& e, int ci) {
		std::weak_ptr<vm::Engine> we = e;
		if(!nested) e->remote_call = [we](const str& n, const str& m, const uint32_t nargs) { auto e = we.lock(); e->write(e->get_stack_ptr(), vm::uint_t(nargs)); e->check_gas(); };
		else e->remote_call = [this, we, ci](const str& name, const str& m, const uint32_t nargs) {
			auto e = we.lock(); const int t = target(ci, name, bins.size()); calls++;
			e->gas_used += CALL_COST; e->check_gas();
			auto child = engine(t, false);
			child->gas_limit = e->gas_limit - std::min(e->gas_used, e->gas_limit);
			const auto sp = e->get_stack_ptr();
			load(child, t);
			for(uint32_t i = 0; i < nargs; ++i) vm::copy(child, e, vm::MEM_STACK + 1 + i, sp + 1 + i);
			child->write(vm::MEM_EXTERN + vm::EXTERN_USER, vm::to_binary(w.self[ci]));
			child->write(vm::MEM_EXTERN + vm::EXTERN_ADDRESS, vm::to_binary(w.self[t]));
			run(child, 0);
			vm::copy(e, child, sp, vm::MEM_STACK);
			e->gas_used += child->gas_used; e->check_gas();
		};
		e->read_contract = [we](const addr_t& a, const str& f, const uint64_t dst) { auto e = we.lock(); if(f != "name") throw std::logic_error("no such field"); e->assign(dst, vm::to_binary(str("field"))); e->check_gas(); };
		vm::load(e, bins[ci]);
	}
	void run(const std::shared_ptr<vm::Engine>& e, uint32_t entry) {
		e->write(vm::MEM_EXTERN + vm::EXTERN_HEIGHT, vm::uint_t(1234));
		e->begin(entry); e->run();
		if(depth == 0 && !nested) if(auto v = e->read(vm::MEM_STACK)) { r.result = from_var(*v); r.has_result = true; }
		e->commit(); e->check_gas();
		for(const auto& o : e->outputs) {
			auto n = cache->get_balance(e->contract, o.contract);
			if(!n || o.amount > *n) throw std::logic_error("contract over-spend");
			*n -= o.amount; cache->set_balance(e->contract, o.contract, *n);
			r.outputs.push_back(conv_out(o));
		}
		for(auto& o : e->mint_outputs) r.mints.push_back(conv_out(o));
	}
	void call(int ci) {
		const size_t before = __sanitizer_get_current_allocated_bytes();
		cache = std::make_shared<vm::StorageCache>(w.db);
		auto e = engine(ci, k.read_only); e->gas_limit = k.limit;
		try {
			load(e, ci);
			std::vector<vnx::Variant> args; for(auto& j : k.args) args.push_back(to_variant(j));
			vm::set_args(e, args);
			e->write(vm::MEM_EXTERN + vm::EXTERN_USER, vm::to_binary(addr_t::from_bytes(addr_bytes(5).data())));
			e->write(vm::MEM_EXTERN + vm::EXTERN_ADDRESS, vm::to_binary(w.self[ci]));
			run(e, k.entry);
			r.ok = true;
		} catch(const std::exception& ex) { r.what = ex.what(); }
		r.memory = __sanitizer_get_current_allocated_bytes() - before;
		r.gas = e->gas_used; r.error_code = e->error_code; r.error_addr = e->error_addr;
		if(r.ok) cache->commit();
	}
};
static run_t run_engine(world_t& w, int ci, const std::vector<std::shared_ptr<contract::Binary>>& bins, bool nested, const call_t& k, uint64_t* calls = nullptr) {
	run_t r; engine_host h{w, r, bins, nested, k}; h.call(ci); if(calls) *calls += h.calls; return r;
}

// the same with the reference interpreter
static void model_copy(vmm::Machine& dst, vmm::Machine& src, uint64_t da, const uint64_t* dk, V* var, int depth) {
	if(++depth > 100) vmm::fail("copy depth");
	std::optional<V> out;
	if(var) switch(var->type) {
		case vmm::REF: { const auto to = var->addr, heap = dst.alloc(); model_copy(dst, src, heap, nullptr, src.read(to), depth); out = V::ref(heap); break; }
		case vmm::ARRAY: {
			if(dk) vmm::fail("array here");
			const auto a = var->addr; const auto n = var->size; dst.assign(da, V::array(n));
			for(uint64_t i = 0; i < n; ++i) model_copy(dst, src, da, &i, &src.need_entry(a, i), depth);
			break;
		}
		case vmm::MAP: {
			if(dk) vmm::fail("map here");
			if(var->flags & vmm::STORED) vmm::fail("stored map");
			const auto a = var->addr; dst.assign(da, V(vmm::MAP));
			for(auto i = src.ent.lower_bound({a, 0}); i != src.ent.end() && i->first.first == a; ++i) if(i->second && !(i->second->flags & vmm::DELETED)) {
				const uint64_t key = dst.lookup(src.need(i->first.second), false);
				model_copy(dst, src, da, &key, &*i->second, depth);
			}
			break;
		}
		default: out = *var; out->flags = 0; out->rc = 0;
	}
	if(out) { if(dk) dst.write_entry(da, *dk, *out); else dst.write(da, *out); }
	dst.check();
}
struct model_host {
	world_t& w; run_t& r; const std::vector<prog_t>& progs; bool nested; const call_t& k;
	uint64_t steps = 0; std::map<int, uint64_t> ops; int depth = 0;
	void setup(vmm::Machine& m, int ci, bool ro) {
		m.st = &w.stores[name_of(w.self[ci])]; m.code = progs[ci].code; m.read_only = ro; m.version = k.version; m.self = name_of(w.self[ci]);
		m.overrun_code = error_code_e::TXFEE_OVERRUN;
		set_sig(m);
		if(!nested) m.rcall = [](vmm::Machine& m, const str&, const str&, uint32_t n) { m.write(m.sp(), V::uint(n)); m.check(); };
		else m.rcall = [this, ci](vmm::Machine& e, const str& name, const str&, uint32_t n) {
			const int t = engine_host::target(ci, name, progs.size());
			e.gas += CALL_COST; e.check();
			vmm::Machine child; setup(child, t, false);
			child.limit = e.limit - std::min(e.gas, e.limit);
			const auto sp = e.sp();
			child.load_consts(progs[t].consts);
			for(uint32_t i = 0; i < n; ++i) model_copy(child, e, vmm::STACK + 1 + i, nullptr, e.read(sp + 1 + i), 0);
			child.write(vmm::EXTERN + 2, V::bin(e.self)); child.write(vmm::EXTERN + 5, V::bin(child.self));
			depth++; go(child, 0); depth--;
			model_copy(e, child, sp, nullptr, child.read(vmm::STACK), 0);
			e.gas += child.gas; e.check();
		};
		m.cread = [](vmm::Machine& m, const str&, const str& f, uint64_t dst) { if(f != "name") vmm::fail("field"); m.assign(dst, V::str("field")); m.check(); };
	}
	void start(vmm::Machine& m, int ci) {
		m.load_consts(progs[ci].consts);
		for(size_t i = 0; i < k.args.size(); ++i) { const auto v = model_value(m, k.args[i]); m.assign(vmm::STACK + 1 + i, v); }
		m.write(vmm::EXTERN + 2, V::bin(addr_bytes(5)));
		m.write(vmm::EXTERN + 5, V::bin(m.self));
	}
	void go(vmm::Machine& m, uint32_t entry) {
		m.write(vmm::EXTERN + 0, V::uint(1234));
		try { m.run(entry); } catch(...) { tally(m); throw; }
		tally(m);
		if(depth == 0 && !nested) if(auto v = m.read(vmm::STACK)) { r.result = *v; r.has_result = true; }
		m.commit(); m.check();
		for(auto& o : m.outputs) {
			auto i = m.st->balance.find(o.contract);
			if(i == m.st->balance.end() || U(i->second) < o.amount) vmm::fail("over-spend");
			i->second -= vmm::mp::uint128_t(o.amount);
			r.outputs.push_back(o);
		}
		r.mints.insert(r.mints.end(), m.mints.begin(), m.mints.end());
		logs(m);
	}
	void tally(vmm::Machine& m) { steps += m.steps; for(auto& o : m.op_count) ops[o.first] += o.second; }
	void logs(vmm::Machine& m) { r.logs.insert(r.logs.end(), m.logs.begin(), m.logs.end()); r.events.insert(r.events.end(), m.events.begin(), m.events.end()); }
	void call(int ci) {
		const auto keep = w.stores;
		vmm::Machine m; setup(m, ci, k.read_only); m.limit = k.limit;
		try { start(m, ci); go(m, k.entry); r.ok = true; } catch(const vmm::Fail& ex) { r.what = ex.what; }
		r.gas = m.gas; r.error_code = m.error_code; r.error_addr = m.error_addr;
		if(r.ok) { for(auto& s : w.stores) { for(auto& e : s.second.mem) e.second.rc = 0; for(auto& e : s.second.ent) e.second.rc = 0; } }
		else { w.stores = keep; }
	}
};

// memory is paid for: what a run holds is bounded by the gas it used
static void check_memory(const run_t& r, uint64_t limit) {
	const int64_t bound = 3000000 + 30 * int64_t(std::min(r.gas, limit + 100000));
	if(getenv("MEMSTAT")) fprintf(stderr, "memory %ld gas %lu\n", long(r.memory), (unsigned long)r.gas);
	CHECK_MSG(r.memory <= bound, "a run holds " << r.memory << " bytes after " << r.gas << " gas, limit " << limit);
}

static void compare_store(const world_t& w) {
	auto nd = [](V v) { v.rc = 0; return v; };
	size_t n_mem = 0, n_ent = 0, n_keys = 0;
	for(auto& self : w.self) {
		const auto f = w.stores.find(name_of(self)); if(f == w.stores.end()) continue;
		for(auto& e : f->second.mem) {
			auto i = w.db->mem.find({self, e.first});
			CHECK_MSG(i != w.db->mem.end(), "not stored: [" << std::hex << e.first << "] = " << desc(e.second));
			const auto got = from_var(*MemStorage::de(i->second));
			CHECK_MSG(same(got, nd(e.second), true), "stored [" << std::hex << e.first << std::dec << "] is " << desc(got) << ", expected " << desc(e.second));
		}
		for(auto& e : f->second.ent) {
			auto i = w.db->ent.find({self, e.first.first, e.first.second});
			CHECK_MSG(i != w.db->ent.end(), "not stored: [" << std::hex << e.first.first << "][" << e.first.second << "] = " << desc(e.second));
			const auto got = from_var(*MemStorage::de(i->second));
			CHECK_MSG(same(got, nd(e.second), true), "stored [" << std::hex << e.first.first << "][" << e.first.second << std::dec << "] is " << desc(got) << ", expected " << desc(e.second));
		}
		for(auto& e : f->second.keys) {
			auto i = w.db->idx.find({self, MemStorage::ser(*to_var(e.first), false)});
			CHECK_MSG(i != w.db->idx.end() && i->second == e.second, "key " << desc(e.first) << " is stored at " << std::hex << (i == w.db->idx.end() ? 0 : i->second) << ", expected " << e.second);
		}
		for(auto& e : f->second.balance) {
			auto b = w.db->get_balance(self, addr_t::from_bytes(e.first.data()));
			CHECK_MSG((b ? conv_amount(*b) : U(0)) == U(e.second), "balance " << (b ? conv_amount(*b) : U(0)) << ", expected " << e.second);
		}
		n_mem += f->second.mem.size(); n_ent += f->second.ent.size(); n_keys += f->second.keys.size();
	}
	CHECK_MSG(n_mem == w.db->mem.size(), w.db->mem.size() << " stored variables, expected " << n_mem);
	CHECK_MSG(n_ent == w.db->ent.size(), w.db->ent.size() << " stored entries, expected " << n_ent);
	CHECK_MSG(n_keys == w.db->idx.size(), w.db->idx.size() << " stored keys, expected " << n_keys);
}

static world_t make_world(Src& s, int n) {
	world_t w;
	for(int i = 0; i < n; ++i) {
		w.self.push_back(addr_t::from_bytes(addr_bytes(7 + i).data()));
		auto& st = w.stores[name_of(w.self[i])];
		for(int j = 0; j < 2; ++j) if(s.chance(70)) { const uint64_t x = s.chance(80) ? s.draw(1000) : s.u64(); w.db->bal[{w.self[i], addr_t::from_bytes(addr_bytes(j).data())}] = x; st.balance[addr_bytes(j)] = x; }
	}
	return w;
}

static void model_case(Src& s, Ctx& c, bool wild, bool nested, bool amplify = false) {
	const int N = nested ? 2 + s.draw(2) : 1;
	world_t w = make_world(s, N);
	std::vector<std::vector<V>> consts; std::vector<prog_t> progs(N);
	for(int i = 0; i < N; ++i) { gen_t g(s, wild); g.amplify = amplify; g.constants(); consts.push_back(g.p.consts); progs[i].consts = g.p.consts; progs[i].code = {{8, 0, 0, 0, 0, 0}}; }
	const int runs = 1 + s.draw(4);
	int good = 0; uint64_t steps = 0, calls = 0;
	auto make = [&](int i, const call_t& k) {
		gen_t g(s, wild); g.nested = nested; g.p.consts = consts[i];
		call_t free = k; free.limit = amplify ? 1500000 : 400000;
		g.trial = [&](vmm::Machine& m, const prog_t& p) {
			auto now = progs; now[i] = p;
			world_t tmp = w; run_t r; model_host h{tmp, r, now, nested, free};
			h.setup(m, i, free.read_only); m.limit = free.limit;
			try { h.start(m, i); m.write(vmm::EXTERN + 0, V::uint(1234)); m.run(0); }
			catch(const vmm::Fail& f) { const bool end = f.what == "ip" && m.calls.size() == 1; m.st = &w.stores[name_of(w.self[i])]; return end; }
			return false;
		};
		if(amplify) g.grow_program(); else g.generate((nested ? 2 : 3) + s.size(nested ? 14 : wild ? 40 : 30), wild ? 25 : 6);
		progs[i].code = g.p.code;
		NOTE("program of contract " << i << "\n" << dump(progs[i]));
	};
	for(int i = 0; i < runs; ++i) {
		call_t k; k.limit = amplify ? (s.chance(90) ? 1500000 : s.draw(100000)) : s.chance(90) ? 600000 : s.draw(60000); k.version = s.chance(80) ? 1 : 0; k.read_only = s.chance(6); k.entry = 0;
		const int na = amplify ? 0 : s.draw(3); for(int j = 0; j < na; ++j) k.args.push_back(gen_json(s, 2));
		const int ci = s.draw(N);
		if(i == 0) for(int j = N; j-- > 0;) { if(j != ci) make(j, k); }
		if(i == 0 || s.chance(60)) make(ci, k);
		if(s.chance(6)) k.entry = s.draw(progs[ci].code.size());
		std::vector<std::shared_ptr<contract::Binary>> bins; for(auto& p : progs) bins.push_back(make_binary(p.constant(), p.binary()));
		run_t want; model_host h{w, want, progs, nested, k}; h.call(ci);
		NOTE("run " << i << " of contract " << ci << ": " << (want.ok ? "ok" : "fails: " + want.what) << " gas " << want.gas << " limit " << k.limit << " args " << na << " entry " << k.entry << " version " << k.version << (k.read_only ? " read-only" : ""));
		const auto got = run_engine(w, ci, bins, nested, k, &calls);
		steps += h.steps;
		check_memory(got, k.limit);
		CHECK_MSG(got.ok == want.ok, "run " << i << ": engine " << (got.ok ? "succeeds" : "fails: " + got.what) << " at " << int(got.error_addr) << ", expected " << (want.ok ? "success" : "failure: " + want.what) << " at " << int(want.error_addr));
		CHECK_MSG(got.error_addr == want.error_addr, "run " << i << ": engine fails at " << int(got.error_addr) << " (" << got.what << "), expected " << int(want.error_addr) << " (" << want.what << ")");
		if(want.ok) {
			good++;
			CHECK_MSG(got.gas == want.gas, "run " << i << ": gas " << got.gas << ", expected " << want.gas);
			CHECK_MSG(got.gas <= k.limit, "run " << i << ": succeeds with " << got.gas << " gas, limit " << k.limit);
			CHECK_MSG(got.error_code == want.error_code, "error code " << got.error_code << " after success");
			CHECK_MSG(got.outputs == want.outputs, "run " << i << ": " << got.outputs.size() << " outputs differ from the expected " << want.outputs.size());
			CHECK_MSG(got.mints == want.mints, "run " << i << ": " << got.mints.size() << " mint outputs differ from the expected " << want.mints.size());
			std::sort(want.logs.begin(), want.logs.end()); std::sort(want.events.begin(), want.events.end());
			auto l = got.logs; auto e = got.events; std::sort(l.begin(), l.end()); std::sort(e.begin(), e.end());
			CHECK_MSG(l == want.logs && e == want.events, "run " << i << ": logs or events differ");
			CHECK_MSG(got.has_result == want.has_result && (!got.has_result || same(got.result, want.result, false)), "run " << i << ": result " << (got.has_result ? desc(got.result) : "none") << ", expected " << (want.has_result ? desc(want.result) : "none"));
		} else {
			c.count("fail: " + want.what);
			// a failing instruction may have evaluated its operands in any order
			const bool slack = want.gas > k.limit || got.gas > k.limit || want.error_addr != uint32_t(-1);
			const uint64_t a = std::min(got.gas, k.limit), b = std::min(want.gas, k.limit);
			CHECK_MSG(a == b || (slack && (a > b ? a - b : b - a) <= 40000), "run " << i << ": fails after " << got.gas << " gas, expected " << want.gas << " (" << got.what << " / " << want.what << ")");
			if(want.what == "fail") CHECK_MSG(got.error_code == want.error_code, "run " << i << ": error code " << got.error_code << ", expected " << want.error_code);
		}
		compare_store(w);
		for(auto& o : h.ops) c.count("op " + vm::get_opcode_info(vm::opcode_e(o.first)).name, o.second);
	}
	c.count("runs ok", good); c.count("runs", runs); if(nested) c.count("remote calls", calls);
	c.nontrivial(good > 0 && steps >= (amplify ? 50 : 5) && (!nested || calls > 0));
	if(steps >= 20) c.label(">=20 steps");
}

PROPERTY(engine_model) { model_case(s, c, false, false); }
PROPERTY(engine_model_wild) { model_case(s, c, true, false); }
PROPERTY(engine_growth) { model_case(s, c, false, false, true); }
PROPERTY(engine_nested) { model_case(s, c, false, true); }
PROPERTY_LIM(engine_nested_wild, 30, 3000) { model_case(s, c, true, true); }

// ---------------------------------------------------------------- C22 hostile code

static void hostile_case(Src& s, Ctx& c, const bool raw)
{
	const int N = 1 + s.draw(2);
	world_t w = make_world(s, N);
	std::vector<std::shared_ptr<contract::Binary>> bins;
	for(int i = 0; i < N; ++i) {
		std::vector<uint8_t> code, con;
		if(raw && s.chance(10)) { code = s.bytes(s.size(300)); con = s.bytes(s.size(100)); }
		else {
			gen_t g(s, true); g.nested = N > 1; g.constants();
			const int n = s.size(40);
			g.trial = [&](vmm::Machine& m, const prog_t& p) {
				std::vector<prog_t> one(1); one[0] = p; world_t tmp; tmp.self = {w.self[i]}; run_t r; call_t free{200000, 1, false, {}, 0};
				model_host h{tmp, r, one, false, free};
				h.setup(m, 0, false); m.limit = free.limit;
				bool end = false;
				try { h.start(m, 0); m.write(vmm::EXTERN + 0, V::uint(1234)); m.run(0); } catch(const vmm::Fail& f) { end = f.what == "ip" && m.calls.size() == 1; }
				m.st = &w.stores[name_of(w.self[i])];
				return end;
			};
			g.generate(n, 30);
			static const uint32_t known[] = {0, 1, 2, 3, 4, 15, 16, 17, 18, vmm::EXTERN + 2, vmm::EXTERN + 3, vmm::STACK, vmm::STACK + 1, vmm::STACK + 5, uint32_t(vmm::STATIC - 1), uint32_t(vmm::STATIC), uint32_t(vmm::STATIC + 1), ~0u};
			if(s.chance(60)) for(int j = s.draw(4); j >= 0; --j) {
				auto& x = g.p.code[s.index(g.p.code.size())];
				uint32_t* f[] = {&x.a, &x.b, &x.c, &x.d};
				switch(s.draw(6)) {
					case 0: x.code = OPS[s.index(sizeof(OPS))]; break;
					case 1: x.flags ^= 1 << s.draw(8); break;
					case 2: std::swap(*f[s.draw(4)], *f[s.draw(4)]); break;
					case 3: x = g.p.code[s.index(g.p.code.size())]; break;
					case 4: *f[s.draw(4)] = s.flip() ? known[s.index(18)] : s.draw(40); break;
					default: g.p.code.erase(g.p.code.begin() + s.index(g.p.code.size())); if(g.p.code.empty()) g.p.code.push_back({8, 0, 0, 0, 0, 0});
				}
			}
			code = g.p.binary(); con = g.p.constant();
			NOTE("program of contract " << i << "\n" << dump(g.p));
			if(raw) for(int j = s.draw(2); j >= 0; --j) {
				auto& v = s.chance(75) ? code : con; if(v.empty()) continue;
				const size_t at = s.index(v.size());
				switch(s.draw(5)) {
					case 0: case 1: v[at] = s.draw(256); break;
					case 2: v[at] ^= 1 << s.draw(8); break;
					case 3: v.erase(v.begin() + at, v.begin() + std::min(v.size(), at + 1 + s.draw(4))); break;
					default: { const std::vector<uint8_t> t(v.begin() + at, v.begin() + std::min(v.size(), at + 1 + s.draw(12))); v.insert(v.begin() + s.index(v.size()), t.begin(), t.end()); }
				}
			}
		}
		NOTE("contract " << i << " code " << show(code) << " constants " << show(con));
		bins.push_back(make_binary(exact(con), exact(code)));
	}
	const int runs = 1 + s.draw(3);
	int good = 0, ran = 0; uint64_t reads = 0;
	for(int i = 0; i < runs; ++i) {
		call_t k; k.limit = s.chance(80) ? 600000 : s.draw(60000); k.version = s.chance(80) ? 1 : 0; k.read_only = s.chance(6);
		k.entry = s.chance(80) ? 0 : s.draw(60);
		const int na = s.draw(3); for(int j = 0; j < na; ++j) k.args.push_back(gen_json(s, 3));
		const int ci = s.draw(N);
		// what an API user gets to see: run, do not commit, read any variable
		{
			run_t r; auto h = std::make_shared<engine_host>(engine_host{w, r, bins, N > 1, k}); h->cache = std::make_shared<vm::StorageCache>(w.db);
			auto e = h->engine(ci, k.read_only); e->gas_limit = k.limit;
			try {
				h->load(e, ci);
				std::vector<vnx::Variant> args; for(auto& j : k.args) args.push_back(to_variant(j));
				vm::set_args(e, args);
				e->begin(k.entry); e->run();
				static const uint64_t at[] = {vm::MEM_STACK, vm::MEM_STACK + 1, vm::MEM_STACK + 2, vm::MEM_STATIC, vm::MEM_STATIC + 1, 11, 15, 17, 18, 19, 20};
				for(auto a : at) try {
					const auto v = vm::read(e, a);
					const auto size = vnx::to_string(v).size(); reads++;
					CHECK_MSG(size <= 1000 + 20 * k.limit, "value of [" << std::hex << a << std::dec << "] takes " << size << " characters, gas limit " << k.limit);
				} catch(const pbt::failure&) { throw; } catch(const std::exception&) {}
			} catch(const pbt::failure&) { throw; } catch(const std::exception&) {}
		}
		world_t w2 = w; w2.db = std::make_shared<MemStorage>(*w.db);
		const auto a = run_engine(w, ci, bins, N > 1, k), b = run_engine(w2, ci, bins, N > 1, k);
		CHECK_MSG(a.ok == b.ok && a.gas == b.gas && a.what == b.what && a.error_code == b.error_code && a.error_addr == b.error_addr, "the same run gives " << (a.ok ? "success" : a.what) << " gas " << a.gas << " and then " << (b.ok ? "success" : b.what) << " gas " << b.gas);
		CHECK_MSG(a.outputs == b.outputs && a.mints == b.mints && a.logs == b.logs && a.events == b.events, "the same run gives different outputs");
		CHECK_MSG(w.db->mem == w2.db->mem && w.db->ent == w2.db->ent && w.db->idx == w2.db->idx && w.db->bal == w2.db->bal, "the same run leaves different storage");
		check_memory(a, k.limit);
		if(a.ok || a.error_addr != uint32_t(-1)) ran++;
		if(a.ok) { good++; CHECK_MSG(a.gas <= k.limit, "succeeds with " << a.gas << " gas, limit " << k.limit); }
	}
	c.count("runs ok", good); c.count("runs", runs); c.count("values read", reads);
	c.count("runs that executed code", ran);
	c.nontrivial(ran > 0);
}
PROPERTY_LIM(hostile_code, 15, 3000) { hostile_case(s, c, false); }
PROPERTY_LIM(hostile_bytes, 15, 3000) { hostile_case(s, c, true); }

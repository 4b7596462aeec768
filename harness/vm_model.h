/*
 * vm_model.h -- reference interpreter for MMX contract bytecode.
 *
 * Written from the instruction set description (src/vm/README/instr_t.h), plain and slow: every value is copied before
 * it is written, containers are ordinary maps, integers are boost multiprecision. It predicts success or failure, gas,
 * error code and address, outputs, events, and the storage that a committed run leaves behind.
 */
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <cstring>
#include "ref_crypto.h"

namespace vmm {

namespace mp = boost::multiprecision;
typedef mp::number<mp::cpp_int_backend<256, 256, mp::unsigned_magnitude, mp::unchecked, void>> U;
typedef std::string bytes;

enum { NIL, FALSE_, TRUE_, REF, UINT, STRING, BINARY, ARRAY, MAP };
enum { DIRTY = 1, CONST = 2, STORED = 4, DELETED = 8, KEY = 16 };

static const uint64_t EXTERN = 0x4000000, STACK = 0x8000000, STACK_SZ = 16 * 0x4000000ull, STATIC = STACK + STACK_SZ, HEAP = 1ull << 32;
static const uint64_t NEXT_ALLOC = HEAP + 1, DYN = HEAP + 0x1000;

struct V {
	int type = NIL;
	unsigned flags = 0;
	uint32_t rc = 0;
	U n;
	bytes s;
	uint64_t addr = 0;
	uint32_t size = 0;
	V() = default;
	explicit V(int t) : type(t) {}
	static V boolean(bool b) { return V(b ? TRUE_ : FALSE_); }
	static V uint(const U& n) { V v(UINT); v.n = n; return v; }
	static V bin(const bytes& s) { V v(BINARY); v.s = s; return v; }
	static V str(const bytes& s) { V v(STRING); v.s = s; return v; }
	static V ref(uint64_t a) { V v(REF); v.addr = a; return v; }
	static V array(uint32_t n) { V v(ARRAY); v.size = n; return v; }
	uint64_t bytes_() const { switch(type) { case REF: return 8; case UINT: return 32; case STRING: case BINARY: return s.size(); case ARRAY: return 12; case MAP: return 8; } return 0; }
};

// order of values: kind first, then value; strings by length first
inline int cmp(const V& a, const V& b) {
	if(a.type != b.type) return a.type < b.type ? -1 : 1;
	switch(a.type) {
		case REF: case ARRAY: case MAP: return a.addr < b.addr ? -1 : a.addr > b.addr;
		case UINT: return a.n < b.n ? -1 : a.n > b.n;
		case STRING: case BINARY:
			if(a.s.size() != b.s.size()) return a.s.size() < b.s.size() ? -1 : 1;
			return memcmp(a.s.data(), b.s.data(), a.s.size());
	}
	return 0;
}
struct V_less { bool operator()(const V& a, const V& b) const { return cmp(a, b) < 0; } };

struct Fail { std::string what; };
[[noreturn]] inline void fail(const std::string& s) { throw Fail{s}; }

struct Store {			// what survives between runs
	std::map<uint64_t, V> mem;
	std::map<std::pair<uint64_t, uint64_t>, V> ent;
	std::map<V, uint64_t, V_less> keys;
	std::map<bytes, mp::uint128_t> balance;
	void write(uint64_t a, const V& v) { mem[a] = v; if(v.flags & KEY) keys[v] = a; }
};

struct Instr { uint8_t code, flags; uint32_t a, b, c, d; };
struct Out { bytes contract, address; U amount; std::optional<std::string> memo; bool operator==(const Out& o) const { return contract == o.contract && address == o.address && amount == o.amount && memo == o.memo; } };

struct Machine {
	std::vector<Instr> code;
	Store* st = nullptr;
	bool read_only = false;
	unsigned version = 1;
	bytes self;
	uint64_t gas = 0, limit = 0, error_code = 0; uint32_t error_addr = -1;
	uint32_t overrun_code = 0;
	std::vector<Out> outputs, mints;
	std::vector<std::pair<uint64_t, std::string>> logs;
	std::vector<std::pair<std::string, uint64_t>> events;
	struct frame { uint64_t ip, sp; };
	std::vector<frame> calls;
	typedef std::optional<V> Cell;
	std::map<uint64_t, Cell> mem;
	std::map<std::pair<uint64_t, uint64_t>, Cell> ent;
	std::map<V, uint64_t, V_less> keymap;
	std::map<bytes, mp::uint128_t> bal;
	bool init_done = false, first_alloc = true;
	uint64_t new_base = -1;
	int depth = 0;
	uint64_t steps = 0;
	std::map<int, uint64_t> op_count;
	std::function<bool(const bytes&, const bytes&, const bytes&)> verify_sig;		// msg, key, sig; may throw Fail
	std::function<bytes(const bytes&)> addr_to_text, text_to_addr;
	std::function<void(Machine&, const std::string&, const std::string&, uint32_t)> rcall;
	std::function<void(Machine&, const bytes&, const std::string&, uint64_t)> cread;

	void check() { if(gas > limit) { error_code = overrun_code; fail("gas"); } }
	void stor_read(const V* v) { gas += 2000 + (v ? v->bytes_() / 32 * 50 : 0); check(); }

	Cell load(const V* p) {
		Cell v;
		if(p && !(p->flags & DELETED)) { v = *p; v->flags = (v->flags & ~DIRTY) | STORED | (read_only ? CONST : 0); }
		stor_read(v ? &*v : nullptr);
		return v;
	}
	Cell load(uint64_t a) { auto i = st->mem.find(a); return load(i == st->mem.end() ? nullptr : &i->second); }
	Cell load(uint64_t a, uint64_t k) { auto i = st->ent.find({a, k}); return load(i == st->ent.end() ? nullptr : &i->second); }

	V* read(uint64_t a, bool mem_only = false) {
		auto i = mem.find(a);
		if(i != mem.end()) return i->second && !(i->second->flags & DELETED) ? &*i->second : nullptr;
		if(!mem_only && a >= STATIC) if(auto v = load(a)) return &*(mem[a] = v);
		return nullptr;
	}
	V& need(uint64_t a) { if(auto v = read(a)) return *v; fail("read fail"); }
	V& need(uint64_t a, int t) { auto& v = need(a); if(v.type != t) fail("type"); return v; }
	V* entry(uint64_t a, uint64_t k) {
		auto i = ent.find({a, k});
		if(i != ent.end()) return i->second && !(i->second->flags & DELETED) ? &*i->second : nullptr;
		if(a >= STATIC) if(auto v = load(a, k)) return &*(ent[{a, k}] = v);
		return nullptr;
	}
	V& need_entry(uint64_t a, uint64_t k) { if(auto v = entry(a, k)) return *v; fail("entry read fail"); }

	void addref(uint64_t a) { if(auto v = read(a, true)) up(*v); }
	static void up(V& v) { if(!(v.flags & STORED)) { v.flags |= DIRTY; v.rc++; } }
	void unref(uint64_t a) {
		auto v = read(a, true);
		if(!v || (v->flags & STORED)) return;
		if(!v->rc) fail("unref underflow");
		v->flags |= DIRTY;
		if(--v->rc == 0) erase(a);
	}
	void erase(uint64_t a) {
		auto i = mem.find(a);
		if(i != mem.end()) erase(i->second);
		else if(a >= STATIC) if(auto v = load(a)) erase(mem[a] = v);
	}
	void erase(Cell& c) {
		if(!c) return;
		if(c->flags & CONST) fail("erase const");
		if(c->flags & DELETED) return;
		if(c->rc) fail("erase with refs");
		if(++depth > 100) fail("erase depth");
		gas += 50; check();
		const V old = *c;
		clear(old);
		const unsigned fl = c->flags;		// may already be gone through a cycle
		c = V(); c->flags = (fl & STORED) ? (fl | DIRTY | DELETED) : unsigned(DELETED);
		depth--;
	}
	void clear(const V& v) {
		if(v.type == REF) unref(v.addr);
		if(v.type == ARRAY || v.type == MAP) { if(v.flags & STORED) fail("erase stored"); erase_entries(v.addr); }
	}
	void erase_entries(uint64_t a) {
		std::vector<uint64_t> ks;
		for(auto i = ent.lower_bound({a, 0}); i != ent.end() && i->first.first == a; ++i) ks.push_back(i->first.second);
		for(auto k : ks) { erase(ent[{a, k}]); check(); }
	}

	V& assign(Cell& c, V v) {
		if(c) {
			if(c->flags & CONST) fail("read-only");
			v.flags = c->flags; v.rc = c->rc;
			const V old = *c; clear(old);
		} else { v.flags = 0; v.rc = 0; }
		if(v.bytes_() > 1024 * 1024) fail("too large");
		gas += 50 + v.bytes_() * 30 / 32;
		c = v;
		c->flags = (c->flags | DIRTY) & ~DELETED;
		if(v.type == REF) addref(v.addr);
		return *c;
	}
	Cell& cell(uint64_t a) {
		if(init_done && a < EXTERN) fail("const memory");
		Cell& c = mem[a];
		if(!c && a >= STATIC && a < new_base) c = load(a);
		return c;
	}
	V& assign(uint64_t a, V v) { if(v.type == ARRAY || v.type == MAP) v.addr = a; return assign(cell(a), v); }
	V& write(uint64_t a, const V& v) { return write(cell(a), &a, v); }
	V& write(Cell& c, const uint64_t* dst, const V& src) {
		if(c && &*c == &src) return *c;
		if(src.flags & DELETED) fail("deleted source");
		const V v = src;
		if(c) {
			if(c->flags & CONST) fail("read-only");
			if(c->flags & DELETED) c->flags = (c->flags | DIRTY) & ~DELETED;
			if(v.type <= TRUE_ && c->type <= TRUE_) { if(c->type != v.type) { c->flags |= DIRTY; c->type = v.type; } return *c; }
			if(v.type == REF && c->type == REF) {
				if(c->addr != v.addr) { unref(c->addr); c->flags |= DIRTY; c->addr = v.addr; addref(v.addr); }
				return *c;
			}
			if(v.type == UINT && c->type == UINT) { if(c->n != v.n) { c->flags |= DIRTY; c->n = v.n; } return *c; }
		}
		if(v.type == ARRAY || v.type == MAP) {
			if(!dst) fail("container as entry");
			if(v.type == MAP && (v.flags & STORED)) fail("stored map");
			V e(v.type); e.size = v.size; e.addr = *dst;
			assign(c, e);
			if(v.type == ARRAY) {
				for(uint64_t i = 0; i < v.size; ++i) { write_entry(*dst, i, need_entry(v.addr, i)); check(); }
			} else {
				for(auto i = ent.lower_bound({v.addr, 0}); i != ent.end() && i->first.first == v.addr; ++i) {
					if(i->second && !(i->second->flags & DELETED)) { write_entry(*dst, i->first.second, *i->second); check(); }
				}
			}
			return *c;
		}
		return assign(c, v);
	}
	V& write_entry(uint64_t a, uint64_t k, const V& v) {
		if(init_done && a < EXTERN) fail("const memory");
		if(need(a).flags & CONST) fail("read-only");
		return write(ent[{a, k}], nullptr, v);
	}
	void erase_entry(uint64_t a, uint64_t k) {
		auto i = ent.find({a, k});
		if(i == ent.end() && a >= STATIC && (need(a).flags & STORED)) if(auto v = load(a, k)) i = ent.emplace(std::make_pair(a, k), v).first;
		if(i != ent.end()) erase(i->second);
	}
	uint64_t alloc() {
		V* p = read(NEXT_ALLOC);
		if(p && p->type != UINT) fail("type");
		if(!p) {
			new_base = HEAP;
			p = &assign(NEXT_ALLOC, V::uint(DYN));
			if(!(p->flags & STORED) && !p->rc) { p->rc = 1; p->flags |= DIRTY; }
		}
		if(p->n >= U(uint64_t(-1))) fail("out of memory");
		if(p->n < U(DYN) || read(uint64_t(p->n), true)) fail("heap");
		p->flags |= DIRTY;
		const uint64_t a = uint64_t(p->n);
		if(first_alloc) { first_alloc = false; new_base = a; }
		p->n += 1;
		return a;
	}
	uint64_t lookup(const V& v, bool ro) {
		if(v.type == NIL) fail("nil key");
		if(v.bytes_() > 4096) fail("key size");
		auto i = keymap.find(v);
		if(i != keymap.end()) return i->second;
		gas += 2000 + v.bytes_() / 32 * 50; check();
		auto j = st->keys.find(v);
		if(j != st->keys.end()) {
			const uint64_t a = j->second;
			auto& k = need(a);
			if(!(k.flags & CONST) || !(k.flags & KEY)) fail("key flags");
			keymap[k] = a;
			return a;
		}
		if(ro) return 0;
		const uint64_t a = alloc();
		V& k = write(a, v);
		k.flags |= CONST | KEY;
		up(k);
		keymap[k] = a;
		return a;
	}
	void push_back(uint64_t a, const V& v) {
		V& arr = need(a, ARRAY);
		if(arr.size == 0xFFFFFFFFu) fail("overflow");
		const uint32_t i = arr.size++;
		write_entry(a, i, v);
		if(auto x = read(a)) { if(x->type == ARRAY) x->flags |= DIRTY; }
	}

	void load_consts(const std::vector<V>& consts) {
		uint64_t a = 0;
		for(auto v : consts) { v.flags = 0; v.rc = 0; assign(a++, v); }
		for(auto i = mem.lower_bound(1); i != mem.lower_bound(EXTERN); ++i) if(i->second->bytes_() <= 4096) keymap.emplace(*i->second, i->first);
		init_done = true;
		check();
	}
	uint64_t sp() const { return STACK + calls.back().sp; }
	uint64_t at(uint32_t a, bool ref) {
		uint64_t x = a;
		if(x >= STACK && x < STATIC) { if(x + calls.back().sp >= STATIC) fail("stack"); x += calls.back().sp; }
		if(ref) { auto& v = need(x); return v.type == REF ? v.addr : x; }
		return x;
	}
	uint64_t val(uint32_t a, bool ref) { return ref ? uint64_t(need(at(a, false), UINT).n & U(~0ull)) : a; }
	static bool truth(const V& v) { switch(v.type) { case NIL: case FALSE_: return false; case UINT: return v.n != 0; case STRING: case BINARY: return !v.s.empty(); } return true; }

	void run(uint64_t entry) {
		for(auto i = mem.begin(); i != mem.lower_bound(STACK); ++i) if(i->second) i->second->flags = (i->second->flags | CONST) & ~DIRTY;
		calls.push_back({entry, 0});
		while(!calls.empty()) {
			const uint64_t ip = calls.back().ip;
			if(ip >= code.size()) fail("ip");
			try { exec(code[ip]); check(); } catch(...) { error_addr = ip; throw; }
			steps++;
		}
	}
	void clear_stack(uint64_t off) {
		std::vector<uint64_t> as;
		for(auto i = mem.lower_bound(STACK + off); i != mem.lower_bound(STATIC); ++i) as.push_back(i->first);
		for(auto a : as) { if(auto& c = mem[a]) { const V v = *c; clear(v); } mem.erase(a); check(); }
	}
	void commit() {
		clear_stack(0);
		auto put = [&](V& v, bool is_entry) {
			if(read_only) fail("read-only storage");
			if(v.type == REF && v.addr < STATIC) fail("non-static ref");
			if(is_entry && v.rc) fail("entry rc");
			if(!is_entry && (v.flags & KEY) && !(v.flags & CONST)) fail("key const");
			gas += (2000 + v.bytes_() * 50) * (!is_entry && (v.flags & KEY) ? 2 : 1); check();
		};
		Store out = *st;
		for(auto i = mem.lower_bound(STATIC); i != mem.end(); ++i) if(i->second && (i->second->flags & DIRTY)) { put(*i->second, false); out.write(i->first, *i->second); }
		for(auto i = ent.lower_bound({STATIC, 0}); i != ent.end(); ++i) if(i->second && (i->second->flags & DIRTY)) { put(*i->second, true); out.ent[i->first] = *i->second; }
		check();
		*st = out;
	}

	mp::uint128_t& balance(uint64_t cur) {
		const auto& c = need(cur, BINARY).s;
		if(c.size() != 32) fail("addr size");
		auto i = bal.find(c);
		if(i != bal.end()) return i->second;
		gas += 50; gas += 2000; check();
		auto j = st->balance.find(c);
		return bal[c] = (j == st->balance.end() ? mp::uint128_t(0) : j->second);
	}
	std::optional<std::string> memo(uint64_t a) {
		const auto& v = need(a);
		if(v.type == NIL) return {};
		if(v.type != STRING) fail("memo type");
		if(v.s.size() > 64) fail("memo size");
		if(v.s.empty()) return {};
		return v.s;
	}
	bytes address(uint64_t a) { const auto& v = need(a, BINARY); if(v.s.size() != 32) fail("addr size"); return v.s; }

	static bytes be(const U& n, bool big) { bytes s(32, 0); U x = n; for(int i = 0; i < 32; ++i) { s[big ? 31 - i : i] = char(uint8_t(x & U(255))); x >>= 8; } return s; }
	static std::string text(U n, int base) { std::string s; if(n == 0) s = "0"; while(n != 0) { s += "0123456789abcdef"[int(n % base)]; n /= base; } std::reverse(s.begin(), s.end()); return s; }
	void digits_cost(const U& n) { gas += (n >> 128) != 0 ? 250000 : (n >> 64) != 0 ? 25000 : (n >> 32) != 0 ? 1000 : 500; check(); }

	void conv(uint64_t dst, uint64_t src, uint64_t df, uint64_t sf) {
		enum { DEF, B2, B8, B10, B16, BOOL_, UINT_, STRING_, BINARY_, ARRAY_, ADDR, BIG, LITTLE };
		const int to = df & 255, to2 = (df >> 8) & 255, from = sf & 255;
		V& r = need(src); const V v = r;
		if(to == BOOL_) { write(dst, V::boolean(truth(v))); return; }
		auto base_of = [&](int f) { switch(f) { case B2: return 2; case B8: return 8; case B10: return 10; case B16: return 16; } return 0; };
		auto endian = [&](int f) -> bool { if(f == DEF || f == BIG) return true; if(f == LITTLE) return false; fail("conv"); };
		switch(v.type) {
			case NIL: if(to == UINT_) write(dst, V::uint(0)); else if(to == ADDR) write(dst, V::bin(bytes(32, 0))); else fail("conv"); return;
			case TRUE_: case FALSE_: if(to == UINT_) write(dst, V::uint(v.type == TRUE_)); else fail("conv"); return;
			case UINT:
				if(to == UINT_) { write(dst, r); return; }
				if(to == STRING_) {
					const int base = to2 == DEF ? 10 : base_of(to2);
					if(!base) fail("conv");
					if((v.n >> 128) != 0 && base == 10) fail("conv");
					digits_cost(v.n);
					assign(dst, V::str(text(v.n, base))); return;
				}
				if(to == BINARY_) { assign(dst, V::bin(be(v.n, endian(to2)))); return; }
				fail("conv");
			case STRING: {
				if(to == UINT_) {
					std::string s = v.s; const std::string p = s.substr(0, 2);
					int base = from == DEF ? (p == "0x" ? 16 : p == "0b" ? 2 : 10) : base_of(from);
					if(!base) fail("conv");
					if(p == "0x" || p == "0b") s = s.substr(2);
					U n = 0;
					for(unsigned char ch : s) {
						int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'Z' ? ch - 'A' + 10 : -1;
						if(d < 0 || d >= base) fail("digit");
						n = n * U(base) + U(d);
					}
					gas += s.size() * 200; check();
					write(dst, V::uint(n)); return;
				}
				if(to == STRING_) { write(dst, r); return; }
				if(to == BINARY_) {
					if(from == DEF) { assign(dst, V::bin(v.s)); return; }
					if(from != B16) fail("conv");
					if(v.s.size() % 2) fail("hex");
					bytes o;
					auto hex = [&](unsigned char ch) -> int { if(ch >= '0' && ch <= '9') return ch - '0'; if(ch >= 'a' && ch <= 'f') return ch - 'a' + 10; if(ch >= 'A' && ch <= 'F') return ch - 'A' + 10; fail("hex"); };
					for(size_t i = v.s.substr(0, 2) == "0x" ? 2 : 0; i < v.s.size(); i += 2) o += char(hex(v.s[i]) * 16 + hex(v.s[i + 1]));
					assign(dst, V::bin(o)); return;
				}
				if(to == ADDR) { gas += 1000; check(); assign(dst, V::bin(text_to_addr(v.s))); return; }
				fail("conv");
			}
			case BINARY: {
				if(to == UINT_) {
					if(v.s.size() != 32) fail("conv");
					const bool big = endian(from); U n = 0;
					for(int i = 0; i < 32; ++i) n = (n << 8) | U(uint8_t(v.s[big ? i : 31 - i]));
					write(dst, V::uint(n)); return;
				}
				if(to == STRING_) {
					if(to2 == DEF) { assign(dst, V::str(v.s)); return; }
					if(to2 == B16) { std::string o; for(unsigned char ch : v.s) { o += "0123456789ABCDEF"[ch >> 4]; o += "0123456789ABCDEF"[ch & 15]; } assign(dst, V::str(o)); return; }
					if(to2 == ADDR) { gas += 1000; check(); if(v.s.size() != 32) fail("addr size"); assign(dst, V::str(addr_to_text(v.s))); return; }
					fail("conv");
				}
				if(to == BINARY_) { write(dst, r); return; }
				if(to == ADDR) { if(v.s.size() != 32) fail("conv"); write(dst, r); return; }
				fail("conv");
			}
		}
		fail("conv");
	}

	void exec(const Instr& I) {
		gas += 20;
		op_count[I.code]++;
		const bool ra = I.flags & 1, rb = I.flags & 2, rc = I.flags & 4, rd = I.flags & 8, hard = I.flags & 16, ovf = I.flags & 32, bit = I.flags & 64;
		auto A = [&]{ return at(I.a, ra); }; auto B = [&]{ return at(I.b, rb); }; auto C = [&]{ return at(I.c, rc); }; auto D = [&]{ return at(I.d, rd); };
		switch(I.code) {
			case 0: break;
			case 1: if(ra) fail("flag"); erase(uint64_t(I.a)); break;
			case 2: { const auto a = A(), b = B(); if(a != b) write(a, need(b)); break; }
			case 3: { const auto a = A(), b = B(); const auto h = alloc(); write(h, need(b)); write(a, V::ref(h)); break; }
			case 4: { const auto t = val(I.a, ra); calls.back().ip = t; return; }
			case 5: case 6: if(truth(need(B())) == (I.code == 5)) { const auto t = val(I.a, ra); calls.back().ip = t; return; } break;
			case 7: {
				if(rb) fail("flag");
				const auto t = val(I.a, ra); const uint64_t off = I.b;
				if(off >= STACK_SZ) fail("stack"); if(calls.size() >= 1000) fail("recursion");
				gas += 30;
				calls.push_back({t, calls.back().sp + off});
				return;
			}
			case 8: clear_stack(calls.back().sp + 1); calls.pop_back(); if(calls.empty()) return; break;
			case 0x20: case 0x21: case 0x22: case 0x23: case 0x24: case 0x44: case 0x45: {
				const auto a = A(), b = B(), c = C();
				const U l = need(b, UINT).n; const U r = need(c, UINT).n; U d;
				switch(I.code) {
					case 0x20: d = l + r; if(ovf && d < l) fail("overflow"); break;
					case 0x21: d = l - r; if(ovf && l < r) fail("overflow"); break;
					case 0x22: {
						gas += (l >> 64) != 0 || (r >> 64) != 0 ? 200 : 50;
						const mp::uint512_t x = mp::uint512_t(l) * mp::uint512_t(r);
						d = l * r;
						if(ovf && (version >= 1 ? (x >> 256) != 0 : d < l && d < r)) fail("overflow");
						break;
					}
					case 0x23: case 0x24:
						if(r == 0) fail("division by zero");
						gas += (l >> 128) != 0 ? 5000 : (l >> 64) != 0 ? 1000 : 50;
						d = I.code == 0x23 ? U(l / r) : U(l % r); break;
					case 0x44: d = std::min(l, r); break;
					case 0x45: d = std::max(l, r); break;
				}
				write(a, V::uint(d)); break;
			}
			case 0x40: {
				const auto a = A(), b = B(); const V v = need(b);
				if(!bit) { write(a, V::boolean(!truth(v))); break; }
				if(v.type == UINT) { write(a, V::uint(~v.n)); break; }
				if(v.type != BINARY) fail("type");
				bytes o = v.s; for(auto& ch : o) ch = ~ch;
				assign(a, V::bin(o)); break;
			}
			case 0x41: case 0x42: case 0x43: {
				const auto a = A(), b = B(), c = C();
				need(b); need(c);
				const V l = need(b), r = need(c);
				if(!bit) { const bool x = truth(l), y = truth(r); write(a, V::boolean(I.code == 0x41 ? x != y : I.code == 0x42 ? x && y : x || y)); break; }
				if(l.type != r.type) fail("type");
				if(l.type == UINT) { write(a, V::uint(I.code == 0x41 ? U(l.n ^ r.n) : I.code == 0x42 ? U(l.n & r.n) : U(l.n | r.n))); break; }
				if(l.type != BINARY) fail("type");
				if(l.s.size() != r.s.size()) fail("size");
				bytes o = l.s; for(size_t i = 0; i < o.size(); ++i) o[i] = I.code == 0x41 ? l.s[i] ^ r.s[i] : I.code == 0x42 ? l.s[i] & r.s[i] : l.s[i] | r.s[i];
				assign(a, V::bin(o)); break;
			}
			case 0x46: case 0x47: {
				const auto a = A(), b = B(); const auto n = val(I.c, rc); const U v = need(b, UINT).n;
				write(a, V::uint(n >= 256 ? U(0) : I.code == 0x46 ? U(v << unsigned(n)) : U(v >> unsigned(n)))); break;
			}
			case 0x60: case 0x61: case 0x62: case 0x63: case 0x64: case 0x65: {
				const auto a = A(), b = B(), c = C();
				need(b);
				const V r = need(c); const V l = need(b);
				if(I.code >= 0x62 && l.type != r.type) fail("type");
				const int x = cmp(l, r); bool o = false;
				switch(I.code) { case 0x60: o = x == 0; break; case 0x61: o = x != 0; break; case 0x62: o = x < 0; break; case 0x63: o = x > 0; break; case 0x64: o = x <= 0; break; case 0x65: o = x >= 0; break; }
				write(a, V::boolean(o)); break;
			}
			case 0x80: { const auto a = A(), b = B(); write(a, V::uint(need(b).type)); break; }
			case 0x81: { const auto a = A(), b = B(); const V v = need(b); if(v.type == STRING || v.type == BINARY) write(a, V::uint(v.s.size())); else if(v.type == ARRAY) write(a, V::uint(v.size)); else fail("type"); break; }
			case 0x82: {
				const auto a = A(), b = B(), c = C(); const V v = need(b);
				if(v.type == ARRAY) {
					const U i = need(c, UINT).n;
					if(i < v.size) write(a, need_entry(b, uint64_t(i))); else if(hard) fail("bounds"); else write(a, V());
				} else if(v.type == MAP) {
					V* e = nullptr; if(auto k = lookup(need(c), true)) e = entry(b, k);
					if(e) write(a, *e); else write(a, V());
				} else if(hard) fail("type"); else write(a, V());
				break;
			}
			case 0x83: {
				const auto a = A(), b = B(), c = C(); const V v = need(a);
				if(v.type == ARRAY) { const U i = need(b, UINT).n; if(i >= v.size) fail("bounds"); write_entry(a, uint64_t(i), need(c)); }
				else if(v.type == MAP) { V& src = need(c); const auto k = lookup(need(b), false); write_entry(a, k, src); }
				else fail("type");
				break;
			}
			case 0x84: { const auto a = A(), b = B(); if(need(a).type != MAP) fail("type"); if(auto k = lookup(need(b), true)) erase_entry(a, k); break; }
			case 0x85: { const auto a = A(), b = B(); if(a == b) fail("self"); push_back(a, need(b)); break; }
			case 0x86: {
				const auto a = A(), b = B(); if(a == b) fail("self");
				const V v = need(b, ARRAY); if(!v.size) fail("underflow");
				write(a, need_entry(b, v.size - 1));
				erase_entry(b, v.size - 1);
				V& x = need(b, ARRAY); x.size--; x.flags |= DIRTY;
				break;
			}
			case 0xA0: { const auto a = A(), b = B(); const auto c = val(I.c, rc), d = val(I.d, rd); conv(a, b, c, d); break; }
			case 0xA1: {
				const auto a = A(), b = B(), c = C(); need(b); const V r = need(c), l = need(b);
				if(l.type != r.type) fail("type");
				if(l.type == STRING || l.type == BINARY) { V o(l.type); o.s = l.s + r.s; assign(a, o); break; }
				if(l.type != ARRAY) fail("type");
				if(a == b || a == c) fail("self");
				const auto h = alloc();
				assign(h, V::array(0));
				for(uint64_t i = 0; i < l.size; ++i) { push_back(h, need_entry(l.addr, i)); check(); }
				for(uint64_t i = 0; i < r.size; ++i) { push_back(h, need_entry(r.addr, i)); check(); }
				write(a, V::ref(h)); break;
			}
			case 0xA2: {
				const auto a = A(), b = B(); const auto n = val(I.c, rc), off = val(I.d, rd); const V v = need(b);
				if(v.type != STRING && v.type != BINARY) fail("type");
				if(off > v.s.size() || n > v.s.size() - off) fail("bounds");
				V o(v.type); o.s = v.s.substr(off, n); assign(a, o); break;
			}
			case 0xA3: {
				const auto a = A(), b = B(); const V v = need(b);
				if(v.type != STRING && v.type != BINARY) fail("type");
				gas += (v.s.size() + 63) / 64 * 2000; check();
				const auto h = ref::sha256(ref::bytes(v.s.begin(), v.s.end()));
				write(a, V::bin(bytes(h.begin(), h.end()))); break;
			}
			case 0xA4: {
				const auto a = A(), b = B(), c = C(), d = D();
				gas += 20000; check();
				const auto x = need(d, BINARY).s, y = need(c, BINARY).s, z = need(b, BINARY).s;
				write(a, V::boolean(verify_sig(z, y, x))); break;
			}
			case 0xC0: { const auto lv = val(I.a, ra), m = B(); logs.push_back({uint32_t(lv), need(m, STRING).s}); break; }
			case 0xC1: {
				const auto a = A(), b = B(), c = C(), d = D(); const U n = need(b, UINT).n;
				if(n == 0) break;
				if((n >> 128) != 0) fail("amount");
				if(c == 0) fail("currency");
				auto& x = balance(c);
				if(U(x) < n) fail("funds");
				x -= mp::uint128_t(n);
				Out o; o.contract = address(c); o.address = address(a); o.amount = n; o.memo = memo(d); outputs.push_back(o); break;
			}
			case 0xC2: {
				const auto a = A(), b = B(), c = C(); const U n = need(b, UINT).n;
				if(n == 0) break;
				if((n >> 80) != 0) fail("amount");
				Out o; o.contract = self; o.address = address(a); o.amount = n; o.memo = memo(c); mints.push_back(o); break;
			}
			case 0xC3: { const auto a = A(), b = B(); events.push_back({need(a, STRING).s, b}); break; }
			case 0xC4: error_code = uint32_t(val(I.b, rb)); at(I.a, ra); fail("fail");
			case 0xC5: {
				const auto a = A(), b = B(); const auto off = val(I.c, rc), n = val(I.d, rd);
				if(off >= STACK_SZ) fail("stack"); if(calls.size() >= 1000) fail("recursion"); if(n > 4096) fail("nargs"); if(!rcall) fail("rcall");
				gas += 30;
				calls.push_back({calls.back().ip, calls.back().sp + off});
				{ const auto m = need(b, STRING).s; rcall(*this, need(a, STRING).s, m, uint32_t(n)); }
				clear_stack(calls.back().sp + 1); calls.pop_back();
				break;
			}
			case 0xC6: { const auto a = A(), b = B(), c = C(); if(!cread) fail("cread"); const auto ad = address(b); cread(*this, ad, need(c, STRING).s, a); break; }
			case 0xC7: { const auto a = A(), b = B(); const U n = U(balance(b)); write(a, V::uint(n)); break; }
			default: fail("opcode");
		}
		calls.back().ip++;
	}
};

} // vmm

// C23 contract storage: database backend, memory backend and caches against a map with one snapshot per height
#include "vm_values.h"
#include <mmx/vm/StorageDB.h>
#include <mmx/vm/StorageRAM.h>
#include <mmx/vm/StorageCache.h>
#include <mmx/DataBase.h>
#include <filesystem>
#include <unistd.h>

typedef uint64_t u64;
struct state_t {
	std::map<std::pair<int, u64>, V> mem;
	std::map<std::tuple<int, u64, u64>, V> ent;
	std::map<std::pair<int, str>, u64> keys;		// by serialized value
	std::map<std::pair<int, int>, u64> bal;
};
static str ident(const V& v) { V t = v; t.flags = 0; t.rc = 0; const auto x = vm::serialize(*to_var(t), false, false); return str((const char*)x.first.get(), x.second); }
static addr_t contract(int i) { str s(32, char(0x40)); if(i == 2) s[19] = 0x41; else if(i) s[0] = char(0x40 + i); s[31] = char(i); return addr_t::from_bytes(s.data()); }
static addr_t currency(int i) { return addr_t::from_bytes(str(32, char(i + 1)).data()); }

struct fixture {
	str dir;
	std::shared_ptr<DataBase> db; std::shared_ptr<vm::StorageDB> st;
	std::map<std::pair<int, int>, u64> balances;
	explicit fixture(const str& d) : dir(d) { std::filesystem::remove_all(dir); std::filesystem::create_directories(dir); open(); }
	void open() {
		st.reset(); db.reset();
		db = std::make_shared<DataBase>(1); st = std::make_shared<vm::StorageDB>(dir + "/", db);
		auto num = [](const addr_t& a) { for(int i = 0; i < 5; ++i) if(contract(i) == a) return i; return -1; };
		auto cur = [](const addr_t& a) { for(int i = 0; i < 3; ++i) if(currency(i) == a) return i; return -1; };
		st->read_balance = [=, this](const addr_t& c, const addr_t& k) -> std::unique_ptr<uint128> { auto i = balances.find({num(c), cur(k)}); return i == balances.end() ? nullptr : std::make_unique<uint128>(i->second); };
		st->write_balance = [=, this](const addr_t& c, const addr_t& k, const uint128& n) { balances[{num(c), cur(k)}] = u64(uint128_t(n)); };
	}
	~fixture() { st.reset(); db.reset(); std::filesystem::remove_all(dir); }
};

static u64 gen_addr(Src& s) {
	switch(s.weighted({6, 6, 2, 1})) {
		case 0: return vm::MEM_STATIC + s.draw(6);
		case 1: return vm::MEM_HEAP + 0x1000 + s.draw(6);
		case 2: { static const u64 base[] = {vm::MEM_STATIC + 250, vm::MEM_STATIC + 65530, vm::MEM_HEAP, vm::MEM_HEAP + 0xFFFFFFF8}; return base[s.draw(4)] + s.draw(10); }
		default: return s.flip() ? u64(-1) - s.draw(2) : s.u64() | vm::MEM_STATIC;
	}
}
static V gen_stored(Src& s) {
	V v;
	switch(s.weighted({6, 2, 1, 1})) {
		case 0: v = gen_val(s, false); break;
		case 1: v = V::ref(gen_addr(s)); break;
		case 2: v = V::array(s.flip() ? s.draw(5) : s.u32()); v.addr = gen_addr(s); break;
		default: v = V(vmm::MAP); v.addr = gen_addr(s);
	}
	v.flags = (s.flip() ? vm::FLAG_DIRTY : 0) | (s.flip() ? vm::FLAG_STORED : 0);
	if(s.chance(12)) { v = V(); v.flags = vm::FLAG_DELETED | vm::FLAG_DIRTY; }
	if(s.chance(20)) v.rc = s.draw(4);
	return v;
}
static void expect(const vm::var_t* got, const V* want, const str& what) {
	CHECK_MSG(!got == !want, what << " gives " << (got ? desc(from_var(*got)) : "nothing") << ", expected " << (want ? desc(*want) : "nothing"));
	if(want) {
		auto g = from_var(*got); auto w = *want; g.rc = w.rc = 0;
		CHECK_MSG(same(g, w, true), what << " gives " << desc(g) << ", expected " << desc(w));
	}
}
template<class M, class K> static const V* at(const M& m, const K& k) { auto i = m.find(k); return i == m.end() ? nullptr : &i->second; }
static str where(int c, u64 a) { std::ostringstream o; o << "contract " << c << " [" << std::hex << a << "]"; return o.str(); }
static str where(int c, u64 a, u64 k) { std::ostringstream o; o << "contract " << c << " [" << std::hex << a << "][" << k << "]"; return o.str(); }

PROPERTY(storage_model)
{
	fixture f(pbt::scratch_dir() + "/st." + std::to_string(getpid()));
	auto ram = std::make_shared<vm::StorageRAM>();
	state_t cur; std::map<uint32_t, state_t> done; uint32_t height = 0;		// done[h]: all of height h
	const int NC = 1 + s.draw(3);
	u64 next_key = 0;
	size_t queries = 0, reverts = 0, dropped = 0, found = 0;
	auto gen_key = [&](const std::function<bool(const str&)>& taken) -> V {
		for(int i = 0; i < 20; ++i) { V v = gen_val(s, false); if(v.type == vmm::NIL || taken(ident(v))) continue; v.flags = vm::FLAG_CONST | vm::FLAG_KEY | vm::FLAG_DIRTY; v.rc = 1; return v; }
		V v = V::uint(U(1000000) + next_key); v.flags = vm::FLAG_CONST | vm::FLAG_KEY | vm::FLAG_DIRTY; return v;
	};
	// one level of writes through the given storage, mirrored in the model
	std::function<void(std::vector<vm::Storage*>, state_t&, int)> work = [&](std::vector<vm::Storage*> to, state_t& m, int n) {
		for(int i = 0; i < n; ++i) {
			const int id = s.draw(NC);
			switch(s.weighted({5, 5, 2, 1, 2, 2, 2})) {
				case 0: {
					const auto a = gen_addr(s); auto v = gen_stored(s);
					if(auto old = at(m.mem, std::make_pair(id, a))) if(old->flags & vm::FLAG_KEY) break;
					for(auto t : to) t->write(contract(id), a, *to_var(v));
					NOTE("write " << where(id, a) << " = " << desc(v));
					m.mem[{id, a}] = v; break;
				}
				case 1: {
					const auto a = gen_addr(s); const u64 k = s.flip() ? s.draw(6) : gen_addr(s); auto v = gen_stored(s); v.rc = 0;
					for(auto t : to) t->write(contract(id), a, k, *to_var(v));
					NOTE("write " << where(id, a, k) << " = " << desc(v));
					m.ent[{id, a, k}] = v; break;
				}
				case 2: {
					auto v = gen_key([&](const str& name) { return m.keys.count({id, name}) > 0; });
					if(m.keys.count({id, ident(v)})) break;
					const u64 a = vm::MEM_HEAP + 0x100000 + next_key++;
					if(m.mem.count({id, a})) break;
					for(auto t : to) t->write(contract(id), a, *to_var(v));
					NOTE("key " << where(id, a) << " = " << desc(v));
					m.mem[{id, a}] = v; m.keys[{id, ident(v)}] = a; break;
				}
				case 3: { const int k = s.draw(3); const u64 n = s.u64(); for(auto t : to) t->set_balance(contract(id), currency(k), n); NOTE("balance " << id << "/" << k << " = " << n); m.bal[{id, k}] = n; break; }
				case 4: {
					const auto a = gen_addr(s); const u64 k = s.flip() ? s.draw(6) : gen_addr(s);
					for(auto t : to) { expect(t->read(contract(id), a).get(), at(m.mem, std::make_pair(id, a)), "read " + where(id, a)); expect(t->read(contract(id), a, k).get(), at(m.ent, std::make_tuple(id, a, k)), "read " + where(id, a, k)); }
					queries++; break;
				}
				case 5: {
					V v;
					if(!m.keys.empty() && s.chance(60)) { auto j = m.keys.begin(); std::advance(j, s.index(m.keys.size())); v = m.mem.at({j->first.first, j->second}); if(s.chance(15) && v.type == vmm::STRING) v.type = vmm::BINARY; }
					else v = gen_val(s, false);
					const auto j = m.keys.find({id, ident(v)}); const u64 want = j == m.keys.end() ? 0 : j->second;
					for(auto t : to) { const auto got = t->lookup(contract(id), *to_var(v)); CHECK_MSG(got == want, "lookup of " << desc(v) << " in contract " << id << " gives " << std::hex << got << ", expected " << want); }
					if(want) found++;
					queries++; break;
				}
				default: {
					const int k = s.draw(3); const auto j = m.bal.find({id, k});
					for(auto t : to) { const auto got = t->get_balance(contract(id), currency(k)); CHECK_MSG(!got == (j == m.bal.end()) && (!got || u64(uint128_t(*got)) == j->second), "balance " << id << "/" << k << " gives " << (got ? std::to_string(u64(uint128_t(*got))) : "none")); }
					queries++;
				}
			}
		}
	};
	auto check_range = [&](const state_t& m, uint32_t h, const str& at_height) {
		for(int r = s.draw(3); r >= 0; --r) {
			const int id = s.draw(NC);
			u64 b = s.chance(30) ? u64(vm::MEM_STATIC) : gen_addr(s), e = s.chance(30) ? u64(-1) : gen_addr(s); if(b > e) std::swap(b, e);
			const auto got = f.st->find_range(contract(id), b, e, h);
			std::vector<std::pair<u64, V>> want;
			for(auto i = m.mem.lower_bound({id, b}); i != m.mem.end() && i->first.first == id && i->first.second < e; ++i) if(!(i->second.flags & vm::FLAG_DELETED)) want.push_back({i->first.second, i->second});
			CHECK_MSG(got.size() == want.size(), "range of contract " << id << " from " << std::hex << b << " to " << e << std::dec << at_height << " has " << got.size() << " values, expected " << want.size());
			for(size_t i = 0; i < got.size(); ++i) { CHECK_MSG(got[i].first == want[i].first, "range entry " << i << " is at " << std::hex << got[i].first << ", expected " << want[i].first); expect(got[i].second.get(), &want[i].second, "range" + at_height + " " + where(id, got[i].first)); }
			// entries of one container
			u64 a = gen_addr(s);
			if(!m.ent.empty() && s.chance(70)) { auto j = m.ent.begin(); std::advance(j, s.index(m.ent.size())); a = std::get<1>(j->first); }
			const auto ent = f.st->find_entries(contract(id), a, h); const auto arr = f.st->read_array(contract(id), a, h);
			std::vector<std::pair<u64, V>> we;
			for(auto i = m.ent.lower_bound({id, a, 0}); i != m.ent.end() && std::get<0>(i->first) == id && std::get<1>(i->first) == a; ++i) if(!(i->second.flags & vm::FLAG_DELETED)) we.push_back({std::get<2>(i->first), i->second});
			CHECK_MSG(ent.size() == we.size() && arr.size() == we.size(), where(id, a) << at_height << " lists " << ent.size() << " entries, " << arr.size() << " elements, expected " << we.size());
			for(size_t i = 0; i < we.size(); ++i) { CHECK_MSG(ent[i].first == we[i].first, "entry " << i << " has key " << std::hex << ent[i].first << ", expected " << we[i].first); expect(ent[i].second.get(), &we[i].second, "entry" + at_height + " " + where(id, a, we[i].first)); expect(arr[i].get(), &we[i].second, "element" + at_height + " " + where(id, a, we[i].first)); }
			if(want.size() + we.size()) found++;
			queries++;
		}
	};
	const int n = 2 + s.size(30);
	size_t entries = 0;
	for(int step = 0; step < n; ++step) {
		switch(s.weighted({8, 4, 2, 1, 5, 1})) {
			case 0: {		// a block of transactions, each through its own cache
				NOTE("block");
				auto block = std::make_shared<vm::StorageCache>(f.st); auto block2 = std::make_shared<vm::StorageCache>(ram); state_t bm = cur;
				for(int t = s.draw(3); t >= 0; --t) {
					NOTE(" tx");
					auto tx = std::make_shared<vm::StorageCache>(block); auto tx2 = std::make_shared<vm::StorageCache>(block2); state_t tm = bm;
					work({tx.get(), tx2.get()}, tm, 1 + s.draw(6));
					if(s.chance(75)) { tx->commit(); tx2->commit(); bm = tm; } else { dropped++; NOTE(" dropped"); }
				}
				work({block.get(), block2.get()}, bm, s.draw(3));
				if(s.chance(75)) { block->commit(); block2->commit(); cur = bm; } else { dropped++; NOTE("block dropped"); }
				break;
			}
			case 1: { const uint32_t h = height + 1 + (s.chance(15) ? s.draw(3) : 0); NOTE("commit " << h); f.db->commit(h); for(; height < h; ++height) done[height] = cur; break; }
			case 2: {
				const uint32_t h = s.draw(height + 1); NOTE("revert " << h);
				f.db->revert(h); reverts++;
				const auto keep = cur.bal; cur = h ? done.at(h - 1) : state_t(); cur.bal = keep;		// balances live outside
				done.erase(done.lower_bound(h), done.end()); height = h;
				ram = std::make_shared<vm::StorageRAM>();
				for(auto& e : cur.mem) ram->write(contract(e.first.first), e.first.second, *to_var(e.second));
				for(auto& e : cur.ent) ram->write(contract(std::get<0>(e.first)), std::get<1>(e.first), std::get<2>(e.first), *to_var(e.second));
				for(auto& e : cur.bal) ram->set_balance(contract(e.first.first), currency(e.first.second), e.second);
				break;
			}
			case 3: {
				NOTE("restart");
				f.db->commit(height + 1); done[height] = cur; height++;
				f.open(); break;
			}
			case 4: {
				if(height == 0) break;
				const uint32_t h = s.draw(height); const auto& m = done.at(h); const str ah = " at height " + std::to_string(h);
				NOTE("query" << ah);
				check_range(m, h, ah);
				for(int i = s.draw(6); i > 0; --i) {
					const int id = s.draw(NC); u64 a = gen_addr(s), k = s.draw(6);
					if(!cur.mem.empty() && s.flip()) { auto j = cur.mem.begin(); std::advance(j, s.index(cur.mem.size())); a = j->first.second; }
					expect(f.st->read_ex(contract(id), a, h).get(), at(m.mem, std::make_pair(id, a)), "read" + ah + " " + where(id, a));
					if(!cur.ent.empty() && s.flip()) { auto j = cur.ent.begin(); std::advance(j, s.index(cur.ent.size())); a = std::get<1>(j->first); k = std::get<2>(j->first); }
					expect(f.st->read_ex(contract(id), a, k, h).get(), at(m.ent, std::make_tuple(id, a, k)), "read" + ah + " " + where(id, a, k));
					queries += 2;
				}
				break;
			}
			default: NOTE("query now"); check_range(cur, -1, "");
		}
		entries = std::max(entries, cur.mem.size() + cur.ent.size());
	}
	// everything, at the end
	NOTE("final");
	for(auto t : std::vector<vm::Storage*>{f.st.get(), ram.get()}) {
		for(auto& e : cur.mem) expect(t->read(contract(e.first.first), e.first.second).get(), &e.second, "read " + where(e.first.first, e.first.second));
		for(auto& e : cur.ent) expect(t->read(contract(std::get<0>(e.first)), std::get<1>(e.first), std::get<2>(e.first)).get(), &e.second, "read " + where(std::get<0>(e.first), std::get<1>(e.first), std::get<2>(e.first)));
		for(auto& e : cur.keys) { const auto got = t->lookup(contract(e.first.first), *to_var(cur.mem.at({e.first.first, e.second}))); CHECK_MSG(got == e.second, "lookup of key " << desc(cur.mem.at({e.first.first, e.second})) << " gives " << std::hex << got << ", expected " << e.second); }
	}
	c.count("queries", queries); c.count("queries that found something", found); c.count("reverts", reverts); c.count("caches dropped", dropped);
	if(reverts) c.label("with revert");
	if(height > 3) c.label(">3 heights");
	c.nontrivial(entries >= 3 && queries >= 2);
}

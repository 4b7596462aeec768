// C10 versioned tables vs an in-memory model, C11 crash recovery, C12 typed tables
#include "pbt.h"

#include <vnx/vnx.h>
#include <mmx/DataBase.h>
#include <mmx/table.h>
#include <mmx/multi_table.h>
#include <mmx/hash_t.hpp>

#include <memory>
#include <filesystem>

using namespace mmx;
using pbt::Src; using pbt::Ctx; using pbt::show;
typedef std::string str;

// default order: shorter keys first, then bytes
struct key_less { bool operator()(const str& a, const str& b) const { return a.size() != b.size() ? a.size() < b.size() : memcmp(a.data(), b.data(), a.size()) < 0; } };
typedef std::map<str, std::map<uint32_t, str>, key_less> content_t;

static std::shared_ptr<db_val_t> val(const str& s) { return std::make_shared<db_val_t>((const void*)s.data(), s.size()); }
static str txt(const str& s) { return s.size() > 12 ? show(s.substr(0, 4)) + "..(" + std::to_string(s.size()) + ")" : show(s); }

struct op_t {
	enum kind_t { INSERT, COMMIT, REVERT, FLUSH, REOPEN } kind;
	int table = 0;
	str key, value;
	uint32_t version = 0;
	std::string to_string() const {
		switch(kind) {
			case INSERT: return "insert t" + std::to_string(table) + " " + txt(key) + "=" + txt(value);
			case COMMIT: return "commit " + std::to_string(version);
			case REVERT: return "revert " + std::to_string(version);
			case FLUSH: return "flush t" + std::to_string(table);
			case REOPEN: return "reopen";
		}
		return "";
	}
};

struct model_t {
	std::vector<content_t> t;
	uint32_t version = 0;
	std::vector<bool> clean;		// nothing inserted since the last commit/revert
	void apply(const op_t& op) {
		switch(op.kind) {
			case op_t::INSERT: t[op.table][op.key][version] = op.value; clean[op.table] = false; break;
			case op_t::COMMIT: version = op.version; clean.assign(t.size(), true); break;
			case op_t::REVERT: version = op.version; for(auto& x : t) cut(x, version); clean.assign(t.size(), true); break;
			case op_t::FLUSH: break;
			case op_t::REOPEN: for(auto& x : t) cut(x, version); clean.assign(t.size(), true); break;
		}
	}
	static void cut(content_t& x, uint32_t version) {
		for(auto i = x.begin(); i != x.end();) {
			i->second.erase(i->second.lower_bound(version), i->second.end());
			i = i->second.empty() ? x.erase(i) : std::next(i);
		}
	}
};

static const str* ref_find(const content_t& c, const str& key, uint32_t max_version) {
	auto i = c.find(key);
	if(i == c.end()) return nullptr;
	auto j = i->second.upper_bound(max_version);
	if(j == i->second.begin()) return nullptr;
	return &std::prev(j)->second;
}

static str gen_key(Src& s) {
	switch(s.weighted({6, 3, 1, 1})) {
		case 0: return str(1, char(s.draw(12)));
		case 1: { str k(2, 0); k[0] = char(s.of({0, 1, 255})); k[1] = char(s.draw(6)); return k; }
		case 2: return str(s.range(0, 5), char(s.of({0, 127, 128, 255})));
		default: return str(s.range(240, 300), char(s.draw(3)));
	}
}
static str gen_value(Src& s) {
	const auto n = s.chance(5) ? s.range(900, 3000) : s.chance(10) ? s.range(0, 300) : s.draw(12);
	str v(n, 0);
	uint64_t x = s.draw(256);
	for(auto& c : v) c = char(x++);
	return v;
}

static std::vector<op_t> gen_script(Src& s, int ntab, size_t max_ops, bool allow_reopen) {
	std::vector<op_t> out;
	model_t m;
	m.t.resize(ntab); m.clean.assign(ntab, true);
	const auto n = s.size(max_ops);
	for(size_t i = 0; i < n; ++i) {
		op_t op;
		switch(s.weighted({12, 5, 2, 2, 1})) {
			case 0: op.kind = op_t::INSERT; op.table = s.index(ntab); op.key = gen_key(s); op.value = gen_value(s); break;
			case 1: op.kind = op_t::COMMIT; op.version = m.version + 1 + (s.chance(20) ? s.draw(5) : 0); break;
			case 2: op.kind = op_t::REVERT; op.version = s.chance(10) ? s.draw(m.version + 1) : m.version - std::min<uint32_t>(m.version, s.draw(5)); break;
			case 3: op.kind = op_t::FLUSH; op.table = s.index(ntab); if(!m.clean[op.table]) op.kind = op_t::COMMIT, op.version = m.version + 1; break;
			case 4: op.kind = op_t::REOPEN; if(!allow_reopen) continue; break;
		}
		m.apply(op);
		out.push_back(op);
	}
	return out;
}

struct real_t {
	std::string root;
	Table::options_t opt;
	int n = 0;
	std::vector<std::shared_ptr<Table>> t;
	std::unique_ptr<DataBase> db;
	real_t(const std::string& root, int n, const Table::options_t& opt) : root(root), opt(opt), n(n) {}
	void open() {
		close();
		db = std::make_unique<DataBase>(1);
		for(int i = 0; i < n; ++i) {
			t.push_back(std::make_shared<Table>(root + "/t" + std::to_string(i), opt));
			db->add(t.back());
		}
	}
	void close() { db = nullptr; t.clear(); }
	void apply(const op_t& op) {
		switch(op.kind) {
			case op_t::INSERT: t[op.table]->insert(val(op.key), val(op.value)); break;
			case op_t::COMMIT: db->commit(op.version); break;
			case op_t::REVERT: db->revert(op.version); break;
			case op_t::FLUSH: t[op.table]->flush(); break;
			case op_t::REOPEN: open(); break;
		}
	}
};

static Table::options_t gen_options(Src& s) {
	Table::options_t o;
	o.level_factor = s.of({0, 1, 2, 2, 3, 4});
	o.max_block_size = s.of({100000, 3000, 600, 200, 60});
	o.force_flush_threshold = s.of({100000, 20, 5, 2});
	return o;
}

static std::string case_dir() {
	static int i = 0;
	const auto d = pbt::scratch_dir() + "/db." + std::to_string(getpid());
	std::filesystem::remove_all(d);
	std::filesystem::create_directories(d);
	return d;
}

static void check_content(const Table& table, const content_t& want, const std::string& where) {
	Table::Iterator it(&table);
	it.seek_begin();
	for(auto& e : want) {
		CHECK_MSG(it.is_valid(), where << ": forward iteration ends before key " << txt(e.first));
		CHECK_MSG(it.key()->to_string() == e.first, where << ": forward iteration gives key " << txt(it.key()->to_string()) << ", expected " << txt(e.first));
		CHECK_MSG(it.value()->to_string() == e.second.rbegin()->second && it.version() == e.second.rbegin()->first, where << ": forward iteration, value/version of " << txt(e.first));
		it.next();
	}
	CHECK_MSG(!it.is_valid(), where << ": forward iteration finds the extra key " << txt(it.key()->to_string()));
	it.seek_last();
	for(auto e = want.rbegin(); e != want.rend(); ++e) {
		CHECK_MSG(it.is_valid(), where << ": backward iteration ends before key " << txt(e->first));
		CHECK_MSG(it.key()->to_string() == e->first, where << ": backward iteration gives key " << txt(it.key()->to_string()) << ", expected " << txt(e->first));
		CHECK_MSG(it.value()->to_string() == e->second.rbegin()->second, where << ": backward iteration, value of " << txt(e->first));
		it.prev();
	}
	CHECK_MSG(!it.is_valid(), where << ": backward iteration finds the extra key " << txt(it.key()->to_string()));
	for(auto& e : want) for(auto& v : e.second) {
		const auto r = table.find(val(e.first), v.first);
		CHECK_MSG(r && r->to_string() == v.second, where << ": key " << txt(e.first) << " at version " << v.first << ": " << (r ? "wrong value" : "not found"));
		if(v.first) {
			const auto w = ref_find(want, e.first, v.first - 1);
			const auto r = table.find(val(e.first), v.first - 1);
			CHECK_MSG(bool(r) == bool(w) && (!r || r->to_string() == *w), where << ": key " << txt(e.first) << " just below version " << v.first);
		}
	}
}

static void find_check(Src& s, const real_t& r, const model_t& m) {
	const int i = s.index(r.n);
	const auto key = gen_key(s);
	const uint32_t v = s.chance(30) ? -1 : s.draw(m.version + 2);
	const auto got = r.t[i]->find(val(key), v);
	const auto want = ref_find(m.t[i], key, v);
	CHECK_MSG(bool(got) == bool(want) && (!got || got->to_string() == *want), "find(t" << i << ", " << txt(key) << ", max " << v << "): " << (got ? "got " + txt(got->to_string()) : str("nothing"))
		<< ", expected " << (want ? txt(*want) : str("nothing")));
}

static void walk_check(Src& s, const real_t& r, const model_t& m, Ctx& c) {
	const int i = s.index(r.n);
	const auto& want = m.t[i];
	Table::Iterator it(r.t[i].get());
	auto pos = want.end();
	std::string trace;
	for(int n = s.range(1, 14); n > 0; --n) {
		const auto key = gen_key(s);
		const auto k = val(key);
		const bool valid = pos != want.end();
		const auto kind = s.weighted({1, 1, 2, 2, 2, 2, 6, 6});
		switch(kind) {
			case 0: it.seek_begin(); pos = want.begin(); trace += " begin"; break;
			case 1: it.seek_last(); pos = want.empty() ? want.end() : std::prev(want.end()); trace += " last"; break;
			case 2: it.seek(k); pos = want.lower_bound(key); trace += " seek " + txt(key); break;
			case 3: it.seek_next(k); pos = want.upper_bound(key); trace += " seek_next " + txt(key); break;
			case 4: it.seek_prev(k); { auto p = want.lower_bound(key); pos = p == want.begin() ? want.end() : std::prev(p); } trace += " seek_prev " + txt(key); break;
			case 5: it.seek_for_prev(k); { auto p = want.upper_bound(key); pos = p == want.begin() ? want.end() : std::prev(p); } trace += " seek_for_prev " + txt(key); break;
			case 6: if(!valid) continue; it.next(); ++pos; trace += " next"; break;
			case 7: if(!valid) continue; it.prev(); pos = pos == want.begin() ? want.end() : std::prev(pos); trace += " prev"; break;
		}
		CHECK_MSG(it.is_valid() == (pos != want.end()), "iterator on t" << i << " after" << trace << ": " << (it.is_valid() ? "at " + txt(it.key()->to_string()) + ", expected the end" : "at the end, expected " + txt(pos->first)));
		if(pos != want.end()) {
			CHECK_MSG(it.key()->to_string() == pos->first, "iterator on t" << i << " after" << trace << ": at " << txt(it.key()->to_string()) << ", expected " << txt(pos->first));
			CHECK_MSG(it.value()->to_string() == pos->second.rbegin()->second && it.version() == pos->second.rbegin()->first, "iterator on t" << i << " after" << trace << ": value/version");
		}
	}
	bool threw = false;
	try { r.t[i]->insert(val("x"), val("y")); } catch(const std::logic_error&) { threw = true; }
	CHECK_MSG(threw, "insert during iteration");
}

static size_t count_blocks(const std::string& root) {
	size_t n = 0;
	for(auto& e : std::filesystem::recursive_directory_iterator(root)) if(e.path().extension() == ".dat" && e.path().filename() != "write_log.dat") n++;
	return n;
}

PROPERTY(db_model) {
	const int ntab = s.range(1, 3);
	const auto opt = gen_options(s);
	const auto script = gen_script(s, ntab, 120, true);
	const auto root = case_dir();
	real_t r(root, ntab, opt);
	r.open();
	model_t m;
	m.t.resize(ntab); m.clean.assign(ntab, true);
	NOTE("level_factor=" << opt.level_factor << " max_block_size=" << opt.max_block_size << " force_flush=" << opt.force_flush_threshold);
	int reverts = 0, reopens = 0, checks = 0;
	size_t max_blocks = 0;
	for(auto& op : script) {
		NOTE(op.to_string());
		r.apply(op);
		m.apply(op);
		reverts += op.kind == op_t::REVERT;
		if(op.kind == op_t::REOPEN) {
			reopens++;
			for(int i = 0; i < ntab; ++i) CHECK_MSG(r.t[i]->current_version() == m.version, "version of table " << i << " after a clean reopen: " << r.t[i]->current_version() << ", committed " << m.version);
		}
		CHECK_MSG(r.db->version() == m.version && r.db->min_version() == m.version, "version " << r.db->version() << "/" << r.db->min_version() << ", expected " << m.version);
		switch(s.draw(8)) {
			case 1: find_check(s, r, m); checks++; break;
			case 2: walk_check(s, r, m, c); checks++; break;
			case 3: { const int i = s.index(ntab); check_content(*r.t[i], m.t[i], "table " + std::to_string(i)); checks++; break; }
		}
		max_blocks = std::max(max_blocks, r.t.size() ? count_blocks(root) : 0);
	}
	for(int i = 0; i < ntab; ++i) check_content(*r.t[i], m.t[i], "at the end, table " + std::to_string(i));
	r.open();
	{ op_t op; op.kind = op_t::REOPEN; m.apply(op); }
	for(int i = 0; i < ntab; ++i) {
		CHECK_MSG(r.t[i]->current_version() == m.version, "version of table " << i << " after the final reopen: " << r.t[i]->current_version() << ", committed " << m.version);
		check_content(*r.t[i], m.t[i], "after the final reopen, table " + std::to_string(i));
	}
	// bad requests
	bool threw = false;
	try { r.t[0]->commit(m.version); } catch(const std::logic_error&) { threw = true; }
	CHECK_MSG(threw, "commit of the current version accepted");
	threw = false;
	try { r.t[0]->revert(m.version + 1); } catch(const std::logic_error&) { threw = true; }
	CHECK_MSG(threw, "revert to a future version accepted");
	r.close();
	std::filesystem::remove_all(root);
	size_t total = 0;
	for(auto& t : m.t) total += t.size();
	c.nontrivial(total > 1 && (reverts || max_blocks));
	c.label(max_blocks > 3 ? "more than 3 blocks" : max_blocks ? "1-3 blocks" : "no block");
	if(reverts) c.label("reverts");
	if(reopens) c.label("reopens");
}

// ------------------------------------------------------------------------------------------- crash recovery

PROPERTY(db_crash) {
	const int ntab = s.range(1, 3);
	const auto opt = gen_options(s);
	const auto script = gen_script(s, ntab, 60, true);
	const auto root = case_dir();
	auto& io = vnx::shim::io;
	io.out_buf_size = s.of({64, 256, 4096});
	NOTE("level_factor=" << opt.level_factor << " max_block_size=" << opt.max_block_size << " force_flush=" << opt.force_flush_threshold << " buffer=" << io.out_buf_size);
	// dry run: how many effects on the file system does this history have
	int64_t total = 0;
	{
		io.op_count = 0; io.crash_at = -1; io.crashed = false;
		real_t r(root, ntab, opt);
		r.open();
		for(auto& op : script) r.apply(op);
		total = io.op_count;
	}
	std::filesystem::remove_all(root);
	std::filesystem::create_directories(root);
	io.op_count = 0;
	io.crash_at = s.draw(total + 1);
	io.torn = s.of({0, 0, 300, 700, 1000}) + s.draw(100);
	io.torn = std::min<uint32_t>(io.torn, 1000);
	std::vector<std::string> trace;
	io.trace = &trace;
	model_t m;
	m.t.resize(ntab); m.clean.assign(ntab, true);
	real_t r(root, ntab, opt);
	const op_t* last = nullptr;
	bool crashed = false;
	model_t before = m;
	try {
		r.open();
		for(auto& op : script) {
			last = &op;
			before = m;
			NOTE(op.to_string());
			m.apply(op);
			r.apply(op);
		}
		before = m;
		last = nullptr;
	} catch(const vnx::shim::crash_t&) { crashed = true; }
	// the process is gone: nothing buffered reaches the files
	io.crashed = true;
	try { r.close(); } catch(const vnx::shim::crash_t&) {}
	NOTE("--- crash at effect " << io.crash_at << " of " << total << " (torn " << io.torn << "): " << (trace.empty() ? str("-") : trace.back().substr(0, trace.back().find(' ')) + " " + std::filesystem::path(trace.back()).filename().string()) << (last ? " during " + last->to_string() : str(" at the end")));
	// restart, possibly dying again while recovering
	bool again = false;
	uint32_t version = 0;
	for(int n = 0; ; ++n) {
		io.crashed = false; io.op_count = 0;
		io.crash_at = n < 2 && s.chance(35) ? int64_t(s.draw(25)) : -1;
		trace.clear();
		try {
			r.open();
			version = r.db->recover();
			io.crash_at = -1;
			break;
		} catch(const vnx::shim::crash_t&) {
			again = true;
			NOTE("--- crash again during recovery, at effect " << io.crash_at << ": " << (trace.empty() ? str("-") : trace.back().substr(0, trace.back().find(' ')) + " " + std::filesystem::path(trace.back()).filename().string()));
			io.crashed = true;
			try { r.close(); } catch(const vnx::shim::crash_t&) {}
		}
	}
	io.trace = nullptr;
	NOTE("recovered at version " << version);
	// one version for all tables, and exactly what was committed up to it
	const bool in_revert = last && last->kind == op_t::REVERT;
	const bool in_commit = last && last->kind == op_t::COMMIT;
	const auto lo = in_revert ? std::min(before.version, last->version) : before.version;
	const auto hi = in_commit ? last->version : before.version;
	for(int i = 0; i < ntab; ++i) CHECK_MSG(r.t[i]->current_version() == version, "table " << i << " is at version " << r.t[i]->current_version() << ", the database at " << version);
	CHECK_MSG(version <= hi, "recovered version " << version << " is beyond the last commit " << hi);
	CHECK_MSG(version >= lo, "recovered version " << version << ": the completed commit of version " << lo << " is lost");
	CHECK_MSG(!in_revert || version == lo || version == hi, "recovered version " << version << " is neither before nor after the revert");
	CHECK_MSG(!in_commit || version == lo || version == hi, "recovered version " << version << " is neither before nor after the commit");
	auto want = before.t;
	for(auto& t : want) model_t::cut(t, version);
	for(int i = 0; i < ntab; ++i) check_content(*r.t[i], want[i], "after recovery, table " + std::to_string(i));
	// life goes on
	model_t next;
	next.t = want; next.version = version; next.clean.assign(ntab, true);
	for(int n = s.range(0, 12); n > 0; --n) {
		op_t op;
		switch(s.weighted({6, 3, 1, 2})) {
			case 0: op.kind = op_t::INSERT; op.table = s.index(ntab); op.key = gen_key(s); op.value = gen_value(s); break;
			case 1: op.kind = op_t::COMMIT; op.version = next.version + 1; break;
			case 2: op.kind = op_t::REVERT; op.version = next.version - std::min<uint32_t>(next.version, s.draw(4)); break;
			case 3: op.kind = op_t::REOPEN; break;
		}
		NOTE(op.to_string());
		r.apply(op);
		next.apply(op);
		CHECK_MSG(r.db->min_version() == next.version, "later: version " << r.db->min_version() << ", expected " << next.version);
	}
	for(int i = 0; i < ntab; ++i) check_content(*r.t[i], next.t[i], "later, table " + std::to_string(i));
	r.close();
	std::filesystem::remove_all(root);
	c.nontrivial(crashed);
	c.label(!crashed ? "no crash" : last ? "crash in " + last->to_string().substr(0, last->to_string().find(' ')) : "crash at the end");
	if(again) c.label("crash during recovery");
}

// ------------------------------------------------------------------------------------------- typed tables

static std::string typed_dir(const char* n) { return case_dir() + "/" + n; }

static hash_t small_hash(Src& s) {
	hash_t h;
	h[s.pick(std::vector<int>{0, 31, 15})] = s.of({0, 1, 2, 127, 128, 255});
	if(s.chance(20)) h[31] = s.draw(4);
	return h;
}
static uint32_t small_u32(Src& s) { return s.of<uint32_t>({0, 1, 2, 3, 255, 256, 257, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF}); }

template<typename K> struct gen_k;
template<> struct gen_k<uint32_t> { static uint32_t make(Src& s) { return small_u32(s); } };
template<> struct gen_k<uint64_t> { static uint64_t make(Src& s) { return s.flip() ? small_u32(s) : uint64_t(small_u32(s)) << 32 | small_u32(s); } };
template<> struct gen_k<hash_t> { static hash_t make(Src& s) { return small_hash(s); } };
template<> struct gen_k<addr_t> { static addr_t make(Src& s) { return addr_t(small_hash(s)); } };
template<typename A, typename B> struct gen_k<std::pair<A, B>> { static std::pair<A, B> make(Src& s) { const A a = gen_k<A>::make(s); return {a, gen_k<B>::make(s)}; } };
template<typename A, typename B, typename C> struct gen_k<std::tuple<A, B, C>> { static std::tuple<A, B, C> make(Src& s) { const A a = gen_k<A>::make(s); const B b = gen_k<B>::make(s); return std::tuple<A, B, C>(a, b, gen_k<C>::make(s)); } };

// stored keys are compared as bytes; this is the order the key types have to agree with
template<typename T> str key_bytes(const T& v) { str o; for(int i = sizeof(T) - 1; i >= 0; --i) o.push_back(char(v >> (8 * i))); return o; }
template<> str key_bytes(const hash_t& v) { return str((const char*)v.data(), 32); }
template<> str key_bytes(const addr_t& v) { return str((const char*)v.data(), 32); }
template<typename A, typename B> str key_bytes(const std::pair<A, B>& v) { return key_bytes(v.first) + key_bytes(v.second); }
template<typename A, typename B, typename C> str key_bytes(const std::tuple<A, B, C>& v) { return key_bytes(std::get<0>(v)) + key_bytes(std::get<1>(v)) + key_bytes(std::get<2>(v)); }

template<typename V> V gen_v(Src& s);
template<> uint64_t gen_v(Src& s) { return s.u64(); }
template<> hash_t gen_v(Src& s) { return small_hash(s); }
template<> str gen_v(Src& s) { return gen_value(s); }
template<> std::vector<hash_t> gen_v(Src& s) { std::vector<hash_t> v; for(int i = s.draw(4); i > 0; --i) v.push_back(small_hash(s)); return v; }

template<typename T, typename K, typename V>
static void typed_history(Src& s, Ctx& c, const char* name) {
	const auto dir = typed_dir(name);
	auto t = std::make_unique<T>(dir);
	typedef std::map<K, std::map<uint32_t, V>> m_t;
	m_t m;
	uint32_t version = 0;
	bool pending = false;
	auto cut = [&](uint32_t v) {
		for(auto i = m.begin(); i != m.end();) {
			i->second.erase(i->second.lower_bound(v), i->second.end());
			i = i->second.empty() ? m.erase(i) : std::next(i);
		}
	};
	auto show_k = [](const K& k) { const auto b = key_bytes(k); return show(std::vector<uint8_t>(b.begin(), b.end())); };
	size_t hits = 0;
	NOTE(name);
	for(int n = s.size(60); n > 0; --n) {
		const auto kind = s.weighted({10, 3, 2, 2, 1, 4, 2, 2, 4, 4, 1, 1});
		switch(kind) {
			case 0: { const auto k = gen_k<K>::make(s); const auto v = gen_v<V>(s); NOTE("insert " << show_k(k)); t->insert(k, v); m[k][version] = v; pending = true; break; }
			case 1: if(s.flip()) { t->commit(); version++; } else { version += 1 + s.draw(3); t->commit(version); } NOTE("commit " << version); pending = false; break;
			case 2: version -= std::min<uint32_t>(version, s.draw(4)); NOTE("revert " << version); t->revert(version); cut(version); pending = false; break;
			case 3: if(!pending) { NOTE("flush"); t->flush(); } break;
			case 4: NOTE("reopen"); t.reset(); t = std::make_unique<T>(dir); cut(version); pending = false; break;
			case 5: {
				const auto k = m.size() && s.flip() ? std::next(m.begin(), s.index(m.size()))->first : gen_k<K>::make(s);
				const uint32_t mv = s.flip() ? -1 : s.draw(version + 2);
				V v{};
				const bool ok = t->find(k, v, mv);
				bool want = false; V wv{};
				auto i = m.find(k);
				if(i != m.end()) { auto j = i->second.upper_bound(mv); if(j != i->second.begin()) { want = true; wv = std::prev(j)->second; } }
				CHECK_MSG(ok == want && (!ok || v == wv), name << ": find(" << show_k(k) << ", max version " << mv << ")");
				CHECK_MSG(t->count(k, mv) == want, name << ": count()");
				hits += want;
				break;
			}
			case 6: {
				K k{}; V v{};
				const bool ok = t->find_first(k, v);
				CHECK_MSG(ok == !m.empty() && (!ok || (k == m.begin()->first && v == m.begin()->second.rbegin()->second)), name << ": find_first()");
				V v2{};
				CHECK_MSG(t->find_first(v2) == ok && v2 == v, name << ": find_first(value)");
				break;
			}
			case 7: {
				K k{}; V v{};
				const bool ok = t->find_last(k, v);
				CHECK_MSG(ok == !m.empty() && (!ok || (k == m.rbegin()->first && v == m.rbegin()->second.rbegin()->second)), name << ": find_last()");
				break;
			}
			case 8: case 9: {
				auto a = gen_k<K>::make(s), b = gen_k<K>::make(s);
				if(b < a) std::swap(a, b);
				const size_t limit = s.flip() ? -1 : s.draw(6);
				std::vector<std::pair<K, V>> want;
				const auto mode = s.draw(3);
				std::vector<std::pair<K, V>> got;
				std::vector<V> vals;
				if(mode == 0) {
					for(auto i = m.lower_bound(a); i != m.end() && i->first < b && want.size() < limit; ++i) want.emplace_back(i->first, i->second.rbegin()->second);
					t->find_range(a, b, got, limit); t->find_range(a, b, vals, limit);
				} else if(mode == 1) {
					for(auto i = m.lower_bound(b); i != m.begin() && want.size() < limit;) { --i; if(i->first < a) break; want.emplace_back(i->first, i->second.rbegin()->second); }
					t->find_last_range(a, b, got, limit); t->find_last_range(a, b, vals, limit);
				} else {
					for(auto i = m.lower_bound(a); i != m.end() && want.size() < limit; ++i) want.emplace_back(i->first, i->second.rbegin()->second);
					t->find_greater_equal(a, got, limit); t->find_greater_equal(a, vals, limit);
				}
				CHECK_MSG(got == want, name << ": range query " << mode << " [" << show_k(a) << ", " << show_k(b) << ") limit " << int64_t(limit) << " gives " << got.size() << " entries, expected " << want.size());
				bool same = vals.size() == want.size();
				for(size_t i = 0; same && i < vals.size(); ++i) same = vals[i] == want[i].second;
				CHECK_MSG(same, name << ": range query " << mode << ", values only");
				hits += want.size();
				break;
			}
			case 10: case 11: {
				std::vector<std::pair<K, V>> want, got;
				for(auto& e : m) want.emplace_back(e.first, e.second.rbegin()->second);
				const size_t stop = s.flip() ? -1 : s.draw(5);
				auto cb = [&](const K& k, const V& v) { got.emplace_back(k, v); return got.size() <= stop; };
				if(kind == 10) t->scan(cb); else { t->reverse_scan(cb); std::reverse(want.begin(), want.end()); }
				if(stop != size_t(-1)) want.resize(std::min(want.size(), stop + 1));
				CHECK_MSG(got == want, name << ": scan" << (kind == 11 ? " in reverse" : ""));
				break;
			}
		}
		CHECK_MSG(t->current_version() == version, name << ": version");
	}
	c.nontrivial(m.size() > 1 && hits);
	c.label(name);
	t.reset();
	std::filesystem::remove_all(pbt::scratch_dir() + "/db." + std::to_string(getpid()));
}

template<typename T, typename K, typename V>
static void multi_history(Src& s, Ctx& c, const char* name) {
	const auto dir = typed_dir(name);
	auto t = std::make_unique<T>(dir);
	std::map<K, std::vector<std::pair<uint32_t, V>>> m;		// values in insertion order, with version
	uint32_t version = 0;
	bool pending = false;
	auto cut = [&](uint32_t v) {
		for(auto i = m.begin(); i != m.end();) {
			while(!i->second.empty() && i->second.back().first >= v) i->second.pop_back();
			i = i->second.empty() ? m.erase(i) : std::next(i);
		}
	};
	size_t hits = 0;
	NOTE(name);
	for(int n = s.size(60); n > 0; --n) {
		switch(s.weighted({8, 4, 3, 2, 2, 1, 5, 3, 4, 1})) {
			case 0: { const auto k = gen_k<K>::make(s); const auto v = gen_v<V>(s); NOTE("insert"); t->insert(k, v); m[k].emplace_back(version, v); pending = true; break; }
			case 1: { const auto k = gen_k<K>::make(s); std::vector<V> v; for(int i = s.draw(5); i > 0; --i) v.push_back(gen_v<V>(s)); NOTE("insert " << v.size()); t->insert_many(k, v); if(v.size()) { for(auto& x : v) m[k].emplace_back(version, x); } pending = true; break; }
			case 2: version += 1 + s.draw(3); NOTE("commit " << version); t->commit(version); pending = false; break;
			case 3: version -= std::min<uint32_t>(version, s.draw(4)); NOTE("revert " << version); t->revert(version); cut(version); pending = false; break;
			case 4: if(!pending) { NOTE("flush"); t->flush(); } break;
			case 5: NOTE("reopen"); t.reset(); t = std::make_unique<T>(dir); cut(version); pending = false; break;
			case 6: {
				const auto k = m.size() && s.flip() ? std::next(m.begin(), s.index(m.size()))->first : gen_k<K>::make(s);
				const bool ge = s.chance(20);
				std::vector<V> got, want;
				t->find(k, got, ge);
				for(auto i = m.lower_bound(k); i != m.end() && (ge || i->first == k); ++i) for(auto& x : i->second) want.push_back(x.second);
				CHECK_MSG(got == want, name << ": find() gives " << got.size() << " values, expected " << want.size());
				if(!ge) CHECK_MSG(t->count(k) == want.size(), name << ": count()");
				hits += want.size();
				break;
			}
			case 7: {
				const auto k = m.size() && s.flip() ? std::next(m.begin(), s.index(m.size()))->first : gen_k<K>::make(s);
				const size_t limit = s.draw(5);
				std::vector<V> got, want;
				t->find_last(k, got, limit);
				auto i = m.find(k);
				if(i != m.end()) for(auto j = i->second.rbegin(); j != i->second.rend() && want.size() < limit; ++j) want.push_back(j->second);
				CHECK_MSG(got == want, name << ": find_last() gives " << got.size() << " values, expected " << want.size());
				break;
			}
			case 8: {
				auto a = gen_k<K>::make(s), b = gen_k<K>::make(s);
				if(b < a) std::swap(a, b);
				std::vector<std::pair<K, V>> got, want;
				std::vector<V> vals;
				t->find_range(a, b, got); t->find_range(a, b, vals);
				for(auto i = m.lower_bound(a); i != m.end() && i->first < b; ++i) for(auto& x : i->second) want.emplace_back(i->first, x.second);
				CHECK_MSG(got == want, name << ": find_range() gives " << got.size() << " entries, expected " << want.size());
				CHECK_MSG(vals.size() == want.size(), name << ": find_range() values");
				hits += want.size();
				break;
			}
			case 9: {
				std::vector<std::pair<K, V>> got, want;
				t->scan([&](const K& k, const V& v) { got.emplace_back(k, v); return true; });
				for(auto& e : m) for(auto& x : e.second) want.emplace_back(e.first, x.second);
				CHECK_MSG(got == want, name << ": scan()");
				break;
			}
		}
	}
	c.nontrivial(m.size() > 1 && hits);
	c.label(name);
	t.reset();
	std::filesystem::remove_all(pbt::scratch_dir() + "/db." + std::to_string(getpid()));
}

PROPERTY(typed_tables) {
	switch(s.draw(6)) {
		case 0: typed_history<uint_table<uint32_t, uint64_t>, uint32_t, uint64_t>(s, c, "uint_table"); break;
		case 1: typed_history<uint_uint_table<uint32_t, uint64_t, str>, std::pair<uint32_t, uint64_t>, str>(s, c, "uint_uint_table"); break;
		case 2: typed_history<hash_table<hash_t, std::vector<hash_t>>, hash_t, std::vector<hash_t>>(s, c, "hash_table"); break;
		case 3: typed_history<hash_uint_table<addr_t, uint32_t, str>, std::pair<addr_t, uint32_t>, str>(s, c, "hash_uint_table"); break;
		case 4: typed_history<hash_uint_uint_table<addr_t, uint32_t, uint32_t, uint64_t>, std::tuple<addr_t, uint32_t, uint32_t>, uint64_t>(s, c, "hash_uint_uint_table"); break;
		case 5: typed_history<balance_table_t<uint64_t>, std::pair<addr_t, addr_t>, uint64_t>(s, c, "balance_table"); break;
	}
}

PROPERTY(multi_tables) {
	switch(s.draw(3)) {
		case 0: multi_history<uint_multi_table<uint32_t, str>, uint32_t, str>(s, c, "uint_multi_table"); break;
		case 1: multi_history<hash_multi_table<addr_t, uint64_t>, addr_t, uint64_t>(s, c, "hash_multi_table"); break;
		case 2: multi_history<hash_uint_multi_table<addr_t, uint32_t, hash_t>, std::pair<addr_t, uint32_t>, hash_t>(s, c, "hash_uint_multi_table"); break;
	}
}

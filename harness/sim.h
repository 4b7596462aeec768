#pragma once
// A small simulated network: real mmx::Node objects (src/Node*.cpp, driven through messages, RPC calls and timers only),
// a farmer that holds real proofs of space for tiny plots, and a timelord that computes real (short) VDFs.
#include "tx_gen.h"
#include <mmx/Node.h>
#include <mmx/NodeClient.hxx>
#include <mmx/Farmer_sign_block.hxx>
#include <mmx/Farmer_sign_block_return.hxx>
#include <mmx/Farmer_sign_vote.hxx>
#include <mmx/Farmer_sign_vote_return.hxx>
#include <mmx/Router_get_blocks_at.hxx>
#include <mmx/Router_get_blocks_at_return.hxx>
#include <mmx/ProofServerClient.hxx>
#include <mmx/ProofResponse.hxx>
#include <mmx/IntervalRequest.hxx>
#include <mmx/Challenge.hxx>
#include <mmx/pos/verify.h>
#include <mmx/helpers.h>
#include <mmx/vm_interface.h>
#include <mmx/vm/Compiler.h>
#include <filesystem>
#include <fstream>
#include <thread>
#include <mutex>
#include <condition_variable>

template<typename T> static std::shared_ptr<T> copy_of(const T& v) { auto p = T::create(); *p = v; return p; }
namespace fs = std::filesystem;
typedef std::shared_ptr<const Block> block_p; typedef std::shared_ptr<const Transaction> tx_p;
typedef std::shared_ptr<const ChainParams> params_p;

// The memory-hard hash of one table entry costs 0.2 ms and the plots of these tests have 2^8 of them, hashed again for every
// proof: remember the results of both (pure) functions. The linker's --wrap routes the calls here; without it nothing is remembered.
extern "C" void real_mem_hash(uint32_t*, uint8_t*, const int) __asm__("__real__ZN3mmx3pos13calc_mem_hashEPjPhi") __attribute__((weak));
extern "C" void wrap_mem_hash(uint32_t* mem, uint8_t* hash, const int n) __asm__("__wrap__ZN3mmx3pos13calc_mem_hashEPjPhi");
void wrap_mem_hash(uint32_t* mem, uint8_t* hash, const int n) {
	static std::mutex mutex; static std::map<std::array<u64, 5>, std::array<uint8_t, 128>> memo;
	std::array<u64, 5> k = {0x1234567, 0x89abcdef, 0xfedcba98, 0x76543210, u64(n)}; for(int i = 0; i < 1024; ++i) { u64& x = k[i % 4]; x = (x ^ mem[i]) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; }
	{ std::lock_guard<std::mutex> l(mutex); auto it = memo.find(k); if(it != memo.end()) { memcpy(hash, it->second.data(), 128); return; } }
	real_mem_hash(mem, hash, n);
	std::lock_guard<std::mutex> l(mutex); memcpy(memo[k].data(), hash, 128);
}

extern "C" void real_gen_mem(uint32_t*, const uint8_t*, const uint32_t) __asm__("__real__ZN3mmx3pos13gen_mem_arrayEPjPKhj") __attribute__((weak));
extern "C" void wrap_gen_mem(uint32_t* mem, const uint8_t* key, const uint32_t n) __asm__("__wrap__ZN3mmx3pos13gen_mem_arrayEPjPKhj");
void wrap_gen_mem(uint32_t* mem, const uint8_t* key, const uint32_t n) {
	static std::mutex mutex; static std::unordered_map<str, std::vector<uint32_t>> memo;
	if(n != 1024) return real_gen_mem(mem, key, n);
	const str k((const char*)key, 64);
	{ std::lock_guard<std::mutex> l(mutex); auto it = memo.find(k); if(it != memo.end()) { memcpy(mem, it->second.data(), n * 4); return; } }
	real_gen_mem(mem, key, n);
	std::lock_guard<std::mutex> l(mutex); memo[k].assign(mem, mem + n);
}
hash_t real_pos_verify(const std::vector<uint32_t>&, const hash_t&, const hash_t&, const int, const int, const int, const bool) __asm__("__real__ZN3mmx3pos6verifyERKSt6vectorIjSaIjEERKNS_6hash_tES8_iiib") __attribute__((weak));
hash_t wrap_pos_verify(const std::vector<uint32_t>& x, const hash_t& c, const hash_t& id, const int pf, const int qf, const int k, const bool hf) __asm__("__wrap__ZN3mmx3pos6verifyERKSt6vectorIjSaIjEERKNS_6hash_tES8_iiib");
hash_t wrap_pos_verify(const std::vector<uint32_t>& x, const hash_t& c, const hash_t& id, const int pf, const int qf, const int k, const bool hf) {
	static std::mutex mutex; static std::unordered_map<str, hash_t> memo;
	str key((const char*)x.data(), x.size() * 4); key += c.to_string() + id.to_string() + std::to_string(pf) + "/" + std::to_string(qf) + "/" + std::to_string(k) + "/" + std::to_string(hf);
	{ std::lock_guard<std::mutex> l(mutex); auto it = memo.find(key); if(it != memo.end()) return it->second; }
	const auto q = real_pos_verify(x, c, id, pf, qf, k, hf);
	std::lock_guard<std::mutex> l(mutex); return memo[key] = q;
}

namespace sim {

inline hash_t h_of(const str& s) { return hash_t(s); }
inline str S(const uint128& v) { return v.str(10); }

// ---- actors
struct key { skey_t sk; pubkey_t pk; addr_t addr; };
inline key make_key(const str& seed) { key k; k.sk = skey_t(hash_t("sim/" + seed)); k.pk = pubkey_t(k.sk); k.addr = k.pk.get_addr(); return k; }

struct plot { int farmer = 0; uint8_t k = 8; hash_t seed, id; vnx::optional<addr_t> contract; std::multimap<uint32_t, std::pair<std::vector<uint32_t>, bytes_t<pos::META_BYTES_OUT>>> table; };

struct world {
	std::vector<key> user, farmer, timelord;
	std::vector<plot> plots;
	std::map<str, addr_t> binary;		// genesis contract binaries by name
	addr_t project; tx_p project_tx;
	str cwd;
};
inline void make_plot(world& w, plot& p) {
	const auto& f = w.farmer[p.farmer];
	p.id = p.contract ? hash_t(str("MMX/PLOTID/NFT") + bytes_t<1>(&p.k, 1) + p.seed + f.pk + *p.contract) : hash_t(str("MMX/PLOTID/OG") + bytes_t<1>(&p.k, 1) + p.seed + f.pk);
	std::vector<uint32_t> xs;
	const auto res = pos::compute({0}, &xs, p.id, p.k, p.k);
	for(size_t i = 0; i < res.size(); ++i) p.table.emplace(res[i].first, std::make_pair(std::vector<uint32_t>(xs.begin() + 256 * i, xs.begin() + 256 * (i + 1)), res[i].second));
}
static const char* BINARIES[] = {"offer", "swap", "token", "plot_nft", "nft", "template", "escrow", "time_lock", "relay"};

// the genesis rewards: plenty for every user but one
inline uint64_t genesis_amount(size_t i) { return i == 0 ? 1000000000000ull : i == 5 ? 700000ull : 3000000000ull; }

// fixes id, signatures (one solution per signer, inputs of other owners left alone) and static cost
inline void seal_tx(Transaction& tx, params_p params, const std::vector<key>& who) {
	tx.finalize();
	for(const auto& k : who) {
		auto sol = solution::PubKey::create(); sol->pubkey = k.pk; sol->signature = signature_t::sign(k.sk, tx.id);
		const uint16_t n = uint16_t(tx.solutions.size()); bool used = tx.sender && *tx.sender == k.addr;
		for(auto& in : tx.inputs) if(in.address == k.addr && in.solution == txin_t::NO_SOLUTION) { in.solution = n; used = true; }
		for(auto& o : tx.execute) if(o->solution == Operation::NO_SOLUTION) { auto e = std::dynamic_pointer_cast<const operation::Execute>(o); if(e && e->user && *e->user == k.addr) { auto c = vnx::clone(o); c->solution = n; o = c; used = true; } }
		if(used || tx.solutions.empty()) tx.solutions.push_back(sol);
	}
	tx.static_cost = tx.calc_cost(params); tx.content_hash = tx.calc_hash(true);
}
inline std::shared_ptr<ChainParams> base_params(const world& w) {
	auto p = ChainParams::create();
	p->network = "mainnet"; p->port = 11337; p->min_ksize = 8; p->max_ksize = 9; p->plot_filter = 1; p->post_filter = 1;
	p->infuse_delay = 1; p->challenge_delay = 3; p->challenge_interval = 12; p->commit_delay = 6; p->max_vdf_count = 20; p->max_space_fork_len = 3;
	p->avg_proof_count = 2; p->max_proof_count = 6; p->max_validators = 5;
	p->vdf_segment_size = 8; p->time_diff_divider = 10; p->time_diff_constant = 16; p->initial_time_diff = 2; p->initial_space_diff = 10; p->space_diff_constant = 10;
	p->min_reward = 500000; p->vdf_reward = 200000; p->vdf_reward_interval = 4; p->reward_adjust_interval = 6; p->reward_adjust_tick = 10000; p->reward_adjust_div = 100;
	p->initial_time_stamp = 1700000000000ull;
	p->min_txfee = 200; p->min_txfee_io = 100; p->min_txfee_sign = 100; p->min_txfee_memo = 50; p->min_txfee_exec = 100; p->min_txfee_deploy = 200; p->min_txfee_depend = 100; p->min_txfee_byte = 1; p->min_txfee_read = 20; p->min_txfee_read_kbyte = 20;
	p->max_tx_cost = 50000; p->max_block_size = 250000; p->max_block_cost = 1000000; p->min_fee_ratio = {1, 2, 3, 5, 10};
	p->reward_activation = 0; p->transaction_activation = 0; p->hardfork1_height = 0; p->hardfork2_height = 0;
	p->fixed_project_reward = 50; p->project_ratio.value = 1; p->project_ratio.inverse = 100;
	p->offer_binary = w.binary.at("offer"); p->swap_binary = w.binary.at("swap"); p->token_binary = w.binary.at("token"); p->plot_nft_binary = w.binary.at("plot_nft"); p->nft_binary = w.binary.at("nft"); p->escrow_binary = w.binary.at("escrow"); p->time_lock_binary = w.binary.at("time_lock"); p->relay_binary = w.binary.at("relay");
	return p;
}

inline world& the_world() {
	static world w;
	static bool done = false;
	if(done) return w;
	done = true;
	for(int i = 0; i < 6; ++i) w.user.push_back(make_key("user" + std::to_string(i)));
	for(int i = 0; i < 3; ++i) w.farmer.push_back(make_key("farmer" + std::to_string(i)));
	for(int i = 0; i < 3; ++i) w.timelord.push_back(make_key("timelord" + std::to_string(i)));
	for(int i = 0; i < 12; ++i) {
		plot p; p.farmer = i % 3; p.k = 8 + (i % 5 == 4); p.seed = hash_t("plot" + std::to_string(i));
		try { make_plot(w, p); w.plots.push_back(p); } catch(const std::exception&) {}
	}
	const str repo = ::getenv("REPO_DIR") ? ::getenv("REPO_DIR") : "/repo";
	w.cwd = pbt::scratch_dir() + "/world" + std::to_string(::getpid()); fs::create_directories(w.cwd + "/data/mainnet");
	for(const auto& e : fs::directory_iterator(repo + "/data/mainnet")) fs::copy_file(e.path(), w.cwd + "/data/mainnet/" + e.path().filename().string(), fs::copy_options::overwrite_existing);
	if(::chdir(w.cwd.c_str())) throw std::runtime_error("chdir");
	for(auto n : BINARIES) w.binary[n] = vnx::read_from_file<Transaction>(str("data/mainnet/tx_") + n + "_binary.dat")->id;
	auto params = base_params(w);
	{	// the project's relay contract, owned by user 0
		auto exec = contract::Executable::create(); exec->name = "Project"; exec->binary = w.binary["relay"]; exec->init_args.push_back(vnx::Variant(w.user[0].addr.to_string()));
		auto tx = Transaction::create(); tx->network = "mainnet"; tx->nonce = 7; tx->note = tx_note_e::DEPLOY; tx->deploy = exec; tx->sender = w.user[0].addr; tx->max_fee_amount = 1000000;
		seal_tx(*tx, params, {w.user[0]}); w.project_tx = tx; w.project = tx->id;
		vnx::write_to_file("data/mainnet/tx_project_relay.dat", std::shared_ptr<const vnx::Value>(tx));
	}
	auto tx = Transaction::create();
	tx->network = "mainnet"; tx->nonce = 1; tx->note = tx_note_e::REWARD;
	for(size_t i = 0; i < w.user.size(); ++i) { txout_t o; o.address = w.user[i].addr; o.amount = genesis_amount(i); tx->outputs.push_back(o); }
	tx->id = tx->calc_hash(); tx->content_hash = tx->calc_hash(true);
	std::ofstream("data/mainnet/tx_testnet_rewards.json") << vnx::to_string(std::shared_ptr<const vnx::Value>(tx));
	return w;
}

// ---- farmer: signs what it is asked to
struct Farmer : vnx::Module {
	Farmer(const str& name) : vnx::Module(name) { vnx::shim::register_service(name, this); }
	params_p params; addr_t reward_addr; std::vector<key> keys; bool refuse = false; uint64_t nonce = 1; uint32_t votes = 0; std::set<hash_t> used; std::vector<std::shared_ptr<const BlockHeader>> made;		// challenges for which a block was signed; signed blocks
	vnx::Hash64 mac() const { return vnx::Hash64(vnx_name); }
	const key& key_of(const pubkey_t& pk) const { for(const auto& k : keys) if(k.pk == pk) return k; throw std::logic_error("unknown farmer key"); }
	std::shared_ptr<vnx::Value> vnx_call_switch(std::shared_ptr<const vnx::Value> method, const vnx::request_id_t&) override {
		if(auto m = std::dynamic_pointer_cast<const Farmer_sign_block>(method)) {
			auto r = Farmer_sign_block_return::create();
			if(refuse) return r;
			auto out = vnx::clone(m->block); used.insert(out->proof[0]->challenge);
			out->nonce = nonce++;
			if(!out->reward_addr) out->reward_addr = reward_addr;
			if(out->reward_contract) out->reward_account = reward_addr;
			out->hash = out->calc_hash(params); out->farmer_sig = signature_t::sign(key_of(out->get_farmer_key()).sk, out->hash); out->content_hash = out->calc_content_hash();
			r->_ret_0 = out; made.push_back(out);
			return r;
		}
		if(auto m = std::dynamic_pointer_cast<const Farmer_sign_vote>(method)) {
			auto r = Farmer_sign_vote_return::create();
			r->_ret_0 = signature_t::sign(key_of(m->vote->farmer_key).sk, hash_t("MMX/validator/vote/" + m->vote->hash + m->vote->farmer_key));
			votes++;
			return r;
		}
		return nullptr;
	}
	const vnx::TypeCode* get_type_code() const override { return nullptr; }
};

// ---- node
struct Node {
	str name, dir; params_p params; bool do_sync = false;
	std::map<str, vnx::Variant> config;
	std::unique_ptr<mmx::Node> node;
	std::thread th; std::mutex mutex; std::condition_variable cv; bool ready = false, quit = false, done = false; std::exception_ptr ex;
	std::vector<vnx::shim::published_t> out;		// everything the node published
	Node(const str& name, const str& dir, params_p params) : name(name), dir(dir), params(params) {}
	~Node() { stop(); }
	Node(const Node&) = delete;
	template<typename F> auto capture(F fn) { auto* old = vnx::shim::published; vnx::shim::published = &out; struct r_t { std::vector<vnx::shim::published_t>* old; ~r_t() { vnx::shim::published = old; } } r{old}; return fn(); }
	void start() {
		fs::create_directories(dir);
		vnx::g_config["chain.params"] = vnx::Variant(std::shared_ptr<const vnx::Value>(params));
		node = std::make_unique<mmx::Node>(name);
		auto set = [&](const str& k, const vnx::Variant& v) { node->vnx_set_config(k, v); };
		set("storage_path", vnx::Variant(dir + "/")); set("database_path", vnx::Variant(dir + "/db/")); set("do_sync", vnx::Variant(do_sync)); set("num_sync_retries", vnx::Variant(0)); set("router_name", vnx::Variant(name + ".Router"));
		set("validate_interval_ms", vnx::Variant(1111)); set("update_interval_ms", vnx::Variant(2222)); set("sync_loss_delay", vnx::Variant(3333)); set("num_db_threads", vnx::Variant(1));
		for(const auto& e : config) set(e.first, e.second);
		vnx::shim::register_service(name, node.get());
		ready = quit = done = false; ex = nullptr;
		vnx::shim::module_main = [this](vnx::Module*) { std::unique_lock<std::mutex> lock(mutex); ready = true; cv.notify_all(); cv.wait(lock, [this] { return quit; }); };
		auto* old = vnx::shim::published; vnx::shim::published = &out;
		th = std::thread([this] {
			try { static_cast<vnx::Module*>(node.get())->main(); } catch(...) { ex = std::current_exception(); }
			std::unique_lock<std::mutex> lock(mutex); done = true; cv.notify_all();
		});
		{ std::unique_lock<std::mutex> lock(mutex); cv.wait(lock, [this] { return ready || done; }); }
		vnx::shim::published = old;
		if(done) { th.join(); auto e = ex; node.reset(); if(e) std::rethrow_exception(e); throw std::runtime_error("node main() returned"); }
		pump();
	}
	void stop() {
		if(!node) return;
		{ std::unique_lock<std::mutex> lock(mutex); quit = true; cv.notify_all(); }
		th.join(); node.reset();
		if(ex) { auto e = ex; ex = nullptr; (void)e; }
	}
	void restart() { stop(); start(); }
	NodeClient api() const { return NodeClient(name); }
	void pump() { capture([&] { for(int i = 0; i < 1000; ++i) { size_t n = node->vnx_run_tasks(); n += vnx::shim::pump(); if(!n) return; } throw pbt::failure("node never gets idle"); }); }
	void send(std::shared_ptr<const vnx::Value> v) { capture([&] { node->shim_handle(v); }); }
	void deliver(std::shared_ptr<const vnx::Value> v) { send(v); pump(); }
	void timer(int ms) { capture([&] { for(auto& t : std::vector<std::shared_ptr<vnx::Timer>>(node->vnx_timers)) if(t->period_us == ms * 1000ll && t->func) { t->func(); return; } throw pbt::failure("no such timer"); }); pump(); }
	void check_pool() { timer(1111); }
	void update() { timer(2222); }
	block_p peak() const { auto a = api(); return a.get_block_at(a.get_height()); }
	uint32_t height() const { return api().get_height(); }
	template<typename T> std::vector<std::shared_ptr<const T>> take(const str& topic) {		// published values of one topic, in order
		std::vector<std::shared_ptr<const T>> res;
		for(const auto& p : out) if(p.topic == topic) if(auto v = std::dynamic_pointer_cast<const T>(p.value)) res.push_back(v);
		return res;
	}
};

// ---- timelord and harvester
inline std::shared_ptr<ProofOfTime> make_vdf(params_p p, const key& tl, const addr_t& reward, uint32_t vdf_height, uint64_t start, uint64_t iters, const hash_t& input, const hash_t& infuse) {
	auto v = ProofOfTime::create();
	v->vdf_height = vdf_height; v->start = start; v->num_iters = iters; v->segment_size = p->vdf_segment_size; v->input = input; v->prev = infuse; v->reward_addr = reward;
	hash_t pt(hash_t(input + infuse) + reward);
	for(uint64_t i = 0; i < iters / p->vdf_segment_size; ++i) { for(uint32_t k = 0; k < p->vdf_segment_size; ++k) pt = hash_t(pt.bytes); v->segments.push_back(pt); }
	v->timelord_key = tl.pk;
	v->hash = v->calc_hash(); v->timelord_sig = signature_t::sign(tl.sk, v->hash); v->content_hash = v->calc_content_hash();
	return v;
}
inline std::vector<std::shared_ptr<ProofOfSpace>> find_proofs(const plot& p, const key& farmer, params_p params, const hash_t& challenge, uint64_t diff, uint32_t vdf_height) {
	std::vector<std::shared_ptr<ProofOfSpace>> out;
	if(!check_plot_filter(params, challenge, p.id)) return out;
	const bool hf = vdf_height >= params->hardfork1_height;
	const auto pc = get_plot_challenge(challenge, p.id);
	uint32_t y0 = uint32_t(pc.data()[0]) | uint32_t(pc.data()[1]) << 8 | uint32_t(pc.data()[2]) << 16; y0 &= (1u << p.k) - 1;
	for(auto it = p.table.lower_bound(y0); it != p.table.end() && it->first < y0 + (1u << params->plot_filter); ++it) {
		hash_t q;
		if(hf) { if(!pos::check_post_filter(pc, it->second.second, params->post_filter)) continue; q = calc_proof_hash(pc, it->second.first); } else q = pos::calc_quality(pc, it->second.second);
		if(!check_proof_threshold(params, p.k, q, diff, hf)) continue;
		// tiny plots have entries whose values yield a second table entry: no proof can be made of those
		try { pos::verify(it->second.first, pc, p.id, params->plot_filter, params->post_filter, p.k, hf); } catch(const std::exception& ex) { if(str(ex.what()).find("more than one") != str::npos) continue; }
		auto fill = [&](auto x) { x->challenge = challenge; x->difficulty = diff; x->plot_id = p.id; x->farmer_key = farmer.pk; x->ksize = p.k; x->seed = p.seed; x->proof_xs = it->second.first; x->score = get_proof_score(x->calc_proof_hash()); };
		if(p.contract) { auto x = ProofOfSpaceNFT::create(); x->contract = *p.contract; fill(x); out.push_back(x); } else { auto x = ProofOfSpaceOG::create(); fill(x); out.push_back(x); }
	}
	return out;
}
inline std::shared_ptr<ProofResponse> make_response(std::shared_ptr<const ProofOfSpace> proof, const key& farmer, uint32_t vdf_height, vnx::Hash64 mac) {
	auto r = ProofResponse::create();
	r->proof = proof; r->vdf_height = vdf_height; r->farmer_addr = mac; r->harvester = "sim";
	r->hash = r->calc_hash(); r->farmer_sig = signature_t::sign(farmer.sk, r->hash); r->content_hash = r->calc_content_hash();
	return r;
}

// everything that was ever made, so that any node can be told about it
struct pool {
	std::vector<std::shared_ptr<const ProofOfTime>> vdf;
	std::map<hash_t, std::shared_ptr<const ProofOfTime>> vdf_by_output;
	std::map<hash_t, block_p> block; std::vector<block_p> blocks;		// in order of creation
	std::vector<std::shared_ptr<const ValidatorVote>> votes;
	void add(std::shared_ptr<const ProofOfTime> v) { if(vdf_by_output.emplace(v->get_output(), v).second) vdf.push_back(v); }
	bool add(block_p b) { if(block.emplace(b->hash, b).second) { blocks.push_back(b); return true; } return false; }
	// the blocks from (excluding) genesis to hash
	std::vector<block_p> line(hash_t hash) const { std::vector<block_p> out; for(auto it = block.find(hash); it != block.end(); it = block.find(it->second->prev)) out.push_back(it->second); std::reverse(out.begin(), out.end()); return out; }
	// VDF proofs of one block, in order
	std::vector<std::shared_ptr<const ProofOfTime>> vdfs(const Block& b) const { std::vector<std::shared_ptr<const ProofOfTime>> out; auto h = b.vdf_output; for(uint32_t i = 0; i < b.vdf_count; ++i) { auto it = vdf_by_output.find(h); if(it == vdf_by_output.end()) return {}; out.push_back(it->second); h = it->second->input; } std::reverse(out.begin(), out.end()); return out; }
};

inline void set_time(int64_t ms) { vnx::shim::wall_time_us = ms * 1000; }
inline int64_t now_ms() { return vnx::shim::wall_time_us / 1000; }

struct Net {
	world& w = the_world();
	std::shared_ptr<ChainParams> params = base_params(the_world());
	std::deque<Farmer> farmers; pool all; std::set<std::pair<uint32_t, hash_t>> proven; std::map<uint32_t, hash_t> asked; std::set<std::pair<uint32_t, hash_t>> ever_asked; uint32_t last_vdf = 0;		// challenges answered; latest challenge per VDF height
	 std::vector<plot> extra_plots;
	str dir; int counter = 0;
	explicit Net(const str& tag) : dir(the_world().cwd + "/" + tag) {
		fs::remove_all(dir); fs::create_directories(dir); vnx::shim::async_queue.clear(); vnx::shim::published = nullptr;
	}
	~Net() { std::error_code ec; fs::remove_all(dir, ec); }
	void init() {
		{ auto tx = vnx::clone(w.project_tx); tx->static_cost = tx->calc_cost(params); tx->content_hash = tx->calc_hash(true); vnx::write_to_file(w.cwd + "/data/mainnet/tx_project_relay.dat", std::shared_ptr<const vnx::Value>(tx)); }	// its cost depends on the rules
		set_time(params->initial_time_stamp + 1000);
		for(size_t i = 0; i < w.farmer.size(); ++i) { farmers.emplace_back("farmer" + std::to_string(i)); auto& f = farmers.back(); f.params = params; f.keys = {w.farmer[i]}; f.reward_addr = w.farmer[i].addr; }
	}
	std::unique_ptr<Node> make_node(bool do_sync = false) { const str name = "node" + std::to_string(counter++); auto n = std::make_unique<Node>(name, dir + "/" + name, params); n->do_sync = do_sync; n->start(); return n; }
	// hands the node the next VDF it asks for; false if it asks for none
	bool advance_vdf(Node& n, const key& tl, const addr_t& reward, int64_t dt_ms = -1) {
		n.out.clear(); n.update();
		std::shared_ptr<const IntervalRequest> req;
		for(const auto& r : n.take<IntervalRequest>("timelord.requests")) if(r->input) req = r;
		if(!req) return false;
		set_time(now_ms() + (dt_ms < 0 ? params->block_interval_ms : dt_ms));
		auto v = make_vdf(params, tl, reward, req->vdf_height, req->start, req->end - req->start, *req->input, req->infuse);
		all.add(v);
		n.deliver(v); last_vdf = v->vdf_height;
		return true;
	}
	template<typename F> void each_plot(F fn) { for(const auto& p : w.plots) fn(p); for(const auto& p : extra_plots) fn(p); }
	// answers the challenges of the last update with the proofs of the farmers in mask; returns how many
	int farm(Node& n, unsigned mask, int max_per_challenge = 100) {
		int count = 0;
		std::vector<std::shared_ptr<const Challenge>> list = n.take<Challenge>("harvester.challenges");
		std::set<hash_t> seen;
		for(const auto& ch : list) { asked[ch->vdf_height] = ch->challenge; ever_asked.insert({ch->vdf_height, ch->challenge}); }
		for(const auto& ch : list) if(seen.insert(ch->challenge).second) {
			int k = 0;
			each_plot([&](const plot& p) {
				if(!(mask >> p.farmer & 1)) return;
				for(auto& x : find_proofs(p, w.farmer[p.farmer], params, ch->challenge, ch->difficulty, ch->vdf_height)) if(k < max_per_challenge) { n.send(make_response(x, w.farmer[p.farmer], ch->vdf_height, farmers[p.farmer].mac())); k++; count++; proven.insert({ch->vdf_height, ch->challenge}); }
			});
		}
		return count;
	}
	void collect(Node& n) {		// remember the node's main chain
		auto a = n.api();
		for(uint32_t h = a.get_height(); h > 0; --h) { auto b = a.get_block_at(h); if(!b || all.block.count(b->hash)) break; }
		const auto top = a.get_height(); uint32_t h = top;
		while(h > 0 && !all.block.count(*a.get_block_hash(h))) h--;
		for(++h; h <= top; ++h) { auto b = a.get_block_at(h); if(!b) throw pbt::failure("main chain block missing at height " + std::to_string(h)); all.add(b); }
		for(auto& v : n.take<ValidatorVote>("node.votes")) all.votes.push_back(v);
	}
	// grow the node's chain until it has a new peak; false if nobody had a proof in time
	bool grow(Node& n, unsigned mask, size_t tl, const addr_t& reward, int64_t dt_ms = -1, int max_per_challenge = 100) {
		const auto before = n.api().get_block_hash(n.height());
		const auto old = n.height();
		for(int i = 0; i < 12; ++i) {
			if(!advance_vdf(n, w.timelord[tl], reward, dt_ms)) return false;
			farm(n, mask, max_per_challenge);
			n.out.clear(); n.update(); n.pump(); n.update();
			collect(n);
			if(n.height() > old) return true;
		}
		return false;
	}
	// deliver one block and its VDFs
	void tell(Node& n, block_p b) { for(const auto& v : all.vdfs(*b)) n.deliver(v); n.deliver(b); n.update(); }
};

} // sim

// C40.. the node: ledger, forks, block validation, block production
#include "node_gen.h"
#include "node_dump.h"
#include "node_tamper.h"
#include <mmx/OCL_VDF.h>
#include <upnp_mapper.h>

// the remote recompute service is a separate process: never used by these checks
namespace mmx {
ProofServerClient::ProofServerClient(const std::string& name) : vnx::Client::Client(vnx::Hash64(1)) { throw std::logic_error("remote recompute is not available"); }
std::vector<::mmx::table_entry_t> ProofServerClient::compute(const std::vector<uint32_t>&, const ::mmx::hash_t&, const int32_t&, const int32_t&) { throw std::logic_error("remote recompute is not available"); }
}
// neither GPUs nor port mapping in the sandbox
namespace mmx {
void OCL_VDF::compute(std::shared_ptr<const ProofOfTime>) { throw std::logic_error("no OpenCL"); }
void OCL_VDF::verify(std::shared_ptr<const ProofOfTime>) { throw std::logic_error("no OpenCL"); }
}
std::shared_ptr<UPNP_Mapper> upnp_start_mapping(const int, const std::string&) { return nullptr; }
SETUP { mmx::secp256k1_init(); }


// a network with drawn rules: fees, limits, delays
static void draw_params(Src& s, sim::Net& net, Ctx& c) {
	auto& p = *net.params;
	p.max_tx_cost = 1500000; p.max_block_size = 7500000; p.max_block_cost = 12000000;
	if(s.chance(25)) { c.label("low cost limit"); p.max_tx_cost = s.of<u64>({25000, 80000, 300000}); p.max_block_size = p.max_tx_cost * 5; p.max_block_cost = p.max_tx_cost * s.of<u64>({5, 8, 12}); }
	if(s.chance(30)) p.min_fee_ratio = {1, 1, 1, 2, 3}; else if(s.chance(20)) p.min_fee_ratio = {1};
	if(s.chance(25)) {		// blocks hold only a few transactions
		c.label("small blocks"); p.min_txfee = s.of<u64>({200, 2000, 6000}); p.min_fee_ratio.resize(std::min<size_t>(p.min_fee_ratio.size(), s.range(1, 5)));
		p.max_tx_cost = s.of<u64>({12000, 20000, 60000}); p.max_block_size = p.max_tx_cost * 5; p.max_block_cost = p.max_block_size * s.range(1, 4);
	}
	p.commit_delay = uint32_t(s.of<u64>({2, 4, 6, 8}));
	p.reward_adjust_interval = uint32_t(s.of<u64>({3, 6, 50})); p.vdf_reward_interval = uint32_t(s.of<u64>({2, 4, 7}));
	p.min_txfee_depend = uint32_t(s.of<u64>({0, 100, 5000}));
	if(s.chance(20)) p.max_block_cost = p.max_tx_cost * 2;
}
static addr_t tl_addr(sim::Net& net, Src& s) { return net.w.timelord[s.index(3)].addr; }

PROPERTY(ledger) {
	sim::Net net("ledger"); draw_params(s, net, c); net.init();
	auto n = net.make_node();
	sim::Ledger led(net.params); led.follow(*n);
	sim::Gen gen(net, led);
	const auto blocks = s.range(6, 25); u64 made = 0;
	for(u64 i = 0; i < blocks; ++i) {
		const auto k = i < 2 ? 12 : s.range(0, s.chance(25) ? 40 : 12);
		for(auto& tx : gen.batch(s, c, k)) { made++; n->send(tx); }
		n->pump();
		n->check_pool();
		if(!net.grow(*n, unsigned(s.range(1, 7)), s.index(3), tl_addr(net, s), -1, int(s.range(1, 2)))) { c.count("stalled"); continue; }
		CHECK_MSG(led.follow(*n), "the only chain there is was abandoned");
		led.compare_supply(*n);
		if(s.chance(15)) led.compare(*n);
	}
	led.compare(*n);
	if(s.chance(30)) { n->restart(); for(int i = 0; i < 3; ++i) n->update(); led.compare(*n); }
	for(auto& e : led.stat) c.count(e.first, e.second);
	c.count("made", made); c.count("included", led.stat["tx"]); c.count("blocks", led.blocks.size());
	for(auto& e : led.txs) { auto it = gen.kind_of.find(e.first); if(::getenv("SHOW_ERR") && it != gen.kind_of.end() && e.second.tx->exec_result->did_fail) c.count("err:" + it->second + ":" + e.second.tx->exec_result->error->message.substr(0, 60)); if(it != gen.kind_of.end()) c.count((e.second.tx->exec_result->did_fail ? "fail:" : "ok:") + it->second); }
	for(const auto& b : led.blocks) NOTE("height " << b->height << ": " << b->tx_list.size() << " transactions, " << b->hash);
	c.nontrivial(led.stat["tx"] > 10 && led.stat["exec_out"] > 0);
}

// ---- several nodes
// a node that is told, in order, exactly the blocks of one chain
static std::unique_ptr<sim::Node> replay(sim::Net& net, const std::vector<block_p>& line) {
	auto n = net.make_node();
	for(const auto& b : line) net.tell(*n, b);
	return n;
}
static std::vector<block_p> line_of(const sim::Node& n) { auto a = n.api(); std::vector<block_p> out; for(uint32_t h = 1; h <= a.get_height(); ++h) out.push_back(a.get_block_at(h)); return out; }

// Two producers share a beginning and then go separate ways, with transactions of their own and in common; a third node hears
// of all blocks in any order. Whatever chain it ends up with, it must be in the state a node is in that only ever saw that chain.
PROPERTY(reorganization) {
	sim::Net net("reorg"); draw_params(s, net, c); net.init();
	auto p = net.make_node();
	sim::Ledger led(net.params); led.follow(*p);
	sim::Gen gen(net, led);
	std::vector<tx_p> txs;
	auto step = [&](sim::Node& n, const std::vector<tx_p>& list, unsigned mask) {
		for(const auto& tx : list) n.send(tx);
		n.pump(); n.check_pool();
		return net.grow(n, mask, s.index(3), tl_addr(net, s), -1, int(s.range(1, 2)));
	};
	const auto common = s.range(1, 10);
	for(u64 i = 0; i < common; ++i) { auto list = gen.batch(s, c, i < 2 ? 12 : s.range(0, 12)); txs.insert(txs.end(), list.begin(), list.end()); step(*p, list, unsigned(s.range(1, 7))); CHECK_MSG(led.follow(*p), "chain abandoned"); }
	auto o = net.make_node(); for(const auto& b : line_of(*p)) net.tell(*o, b);
	CHECK_MSG(o->height() == p->height(), "a node that heard everything is at height " << o->height() << " instead of " << p->height());
	// branches
	auto q = replay(net, line_of(*p));
	std::vector<std::vector<block_p>> branch(2);
	const auto base = p->height(); const bool deep = s.chance(30); if(deep) c.label("branches deeper than the commit delay");
	std::vector<tx_p> shared;
	for(int k = 0; k < 2; ++k) {
		auto& n = k ? *q : *p; const auto len = deep ? s.range(1, net.params->commit_delay + 5) : s.range(1, net.params->commit_delay - 1);
		for(u64 i = 0; i < len; ++i) {
			auto list = gen.batch(s, c, s.range(0, 8));
			if(k == 0) shared.insert(shared.end(), list.begin(), list.end());
			else { for(const auto& tx : shared) if(s.chance(40)) list.push_back(tx); s.shuffle(list); }
			step(n, list, k ? unsigned(s.range(1, 7)) : unsigned(s.range(1, 7)));
		}
		branch[k] = line_of(n); branch[k].erase(branch[k].begin(), branch[k].begin() + base);
	}
	// tell the observer, in any order that does not put a block before its VDFs for ever
	std::vector<block_p> news; for(const auto& b : branch) news.insert(news.end(), b.begin(), b.end());
	const auto order = s.range(0, 2);
	if(order == 0) s.shuffle(news);
	else if(order == 1) { std::vector<block_p> mix; size_t i = 0, j = 0; while(i < branch[0].size() || j < branch[1].size()) { const bool first = j >= branch[1].size() || (i < branch[0].size() && s.flip()); mix.push_back(first ? branch[0][i++] : branch[1][j++]); } news = mix; }
	std::set<hash_t> on_chain; int switches = 0; hash_t last = *o->api().get_block_hash(o->height());
	auto watch = [&] { const auto t = *o->api().get_block_hash(o->height()); if(t != last) { auto b = o->peak(); bool ext = false; for(auto x = b; x; x = net.all.block.count(x->prev) ? net.all.block[x->prev] : nullptr) if(x->hash == last || x->prev == last) { ext = true; break; } if(!ext) switches++; last = t; } };
	for(const auto& b : news) { for(const auto& tx : shared) if(s.chance(5)) o->send(tx); net.tell(*o, b); watch(); if(s.chance(30)) { o->check_pool(); } if(s.chance(10)) { o->restart(); for(const auto& x : news) if(s.chance(50)) net.tell(*o, x); } }
	for(int i = 0; i < 2; ++i) for(const auto& b : news) { net.tell(*o, b); watch(); }
	o->update(); o->update(); watch();
	c.count("switches", switches);
	// compare
	const auto line = line_of(*o);
	sim::dump_keys keys = sim::keys_of(line); for(const auto& b : branch) sim::merge(keys, sim::keys_of(b));
	auto f = replay(net, line);
	CHECK_MSG(f->height() == o->height(), "a node that is only told the chain at height " << o->height() << " stops at " << f->height());
	const auto want = sim::dump_node(*f, keys);
	{ const auto diff = sim::first_difference(want, sim::dump_node(*o, keys)); CHECK_MSG(diff.empty(), "after hearing of both branches (" << branch[0].size() << " and " << branch[1].size() << " blocks from height " << base << ", " << switches << " switches) the node differs from one that only saw its chain (---: that one)\n" << diff); }
	{ sim::Ledger fin(net.params); fin.follow(*o); fin.compare(*o); }
	if(s.chance(40)) { o->restart(); const auto diff = sim::first_difference(want, sim::dump_node(*o, keys)); CHECK_MSG(diff.empty(), "after a restart the node differs from one that only saw its chain (---: that one)\n" << diff); c.label("restart"); }
	NOTE(branch[0].size() << " and " << branch[1].size() << " blocks from height " << base << ", " << switches << " switches, settled at " << o->height());
	c.nontrivial(switches > 0);
}

// A node that is told blocks breaking one rule each, signed by a farmer with a genuine proof for that block, never takes them,
// is in the same state as before, and still accepts the genuine block and everything after it.
PROPERTY(tampered_blocks) {
	sim::Net net("tamper"); draw_params(s, net, c); net.init();
	auto p = net.make_node(), t = net.make_node();
	sim::Ledger led(net.params); led.follow(*p);
	sim::Gen gen(net, led);
	const auto genesis = p->api().get_block_at(0);
	std::vector<block_p> line;
	auto produce = [&] {
		for(auto& tx : gen.batch(s, c, line.size() < 2 ? 12 : s.range(0, 8))) p->send(tx);
		p->pump(); p->check_pool();
		if(!net.grow(*p, unsigned(s.range(1, 7)), s.index(3), tl_addr(net, s), -1, int(s.range(1, 3)))) { c.count("stalled"); return false; }
		CHECK_MSG(led.follow(*p), "chain abandoned");
		return true;
	};
	const auto lead = s.range(1, 9);
	for(u64 i = 0; i < lead; ++i) if(produce()) { line.push_back(p->peak()); net.tell(*t, line.back()); CHECK_MSG(t->api().get_block_hash(t->height()) == line.back()->hash, "genuine block " << line.back()->height << " was not accepted"); }
	const auto rounds = s.range(1, 3); u64 reached = 0;
	sim::dump_keys keys = sim::keys_of(line);
	for(u64 r = 0; r < rounds; ++r) {
		if(!produce()) continue;
		const auto good = p->peak();
		sim::Tamper tam{net, s, led, line, genesis, line.empty() ? genesis : line.back(), good, std::max<int>(int(t->height()) - int(net.params->commit_delay), 0) > 0 ? uint32_t(t->height() - net.params->commit_delay) : 0};
		sim::dump_keys k2 = keys; sim::merge(k2, sim::keys_of({good}));
		for(const auto& v : net.all.vdfs(*good)) t->deliver(v);
		t->update();
		const auto before = sim::dump_node(*t, k2);
		const auto n = s.range(1, 8); std::vector<str> done;
		for(u64 i = 0; i < n; ++i) {
			if(!tam.apply()) continue;
			if(tam.resign) tam.sign();
			if(tam.b->hash == good->hash && tam.b->content_hash == good->content_hash) continue;
			c.label(tam.what); done.push_back(tam.what); reached++;
			try { for(const auto& x : tam.before) { t->deliver(x); if(s.flip()) t->update(); } t->deliver(tam.b); t->update(); if(s.flip()) t->update(); }
			catch(const pbt::failure&) { throw; }
			catch(const std::exception& ex) { FAIL("tampered block (" << tam.what << ") at height " << good->height << ": the node's update failed with: " << ex.what()); }
			auto a = t->api();
			const auto top = a.get_height();
			CHECK_MSG(top == (line.empty() ? 0 : line.back()->height) && *a.get_block_hash(top) == (line.empty() ? genesis->hash : line.back()->hash), "tampered block (" << tam.what << ") at height " << good->height << " (root " << tam.root << ") was accepted: peak is now " << top << (*a.get_block_hash(top) == tam.b->hash ? " (that block)" : ""));
		}
		str all; for(auto& d : done) all += d + ", ";
		{ const auto diff = sim::first_difference(before, sim::dump_node(*t, k2)); CHECK_MSG(diff.empty(), "rejected blocks (" << all << ") changed the node's state\n" << diff); }
		if(s.chance(20)) { t->restart(); for(const auto& v : net.all.vdfs(*good)) t->deliver(v); }
		block_p take = good; str how;
		if(r + 1 == rounds && s.chance(60)) { how = tam.legal(); take = tam.b; c.label("legal variant:" + (how.empty() ? str(" none") : how)); }
		net.tell(*t, take); t->update();
		CHECK_MSG(t->height() == take->height && *t->api().get_block_hash(take->height) == take->hash, "after the rejected blocks (" << all << ") " << (how.size() ? "a block with a farmer's own choice of:" + how : str("the genuine block")) << " at height " << take->height << " is not accepted (peak at " << t->height() << ")");
		line.push_back(take); sim::merge(keys, k2);
		if(take != good) { net.all.add(take); break; }
	}
	auto f = replay(net, line);
	{ const auto diff = sim::first_difference(sim::dump_node(*f, keys), sim::dump_node(*t, keys)); CHECK_MSG(diff.empty(), "the node differs from one that never saw a tampered block (---: that one)\n" << diff); }
	NOTE(reached << " tampered blocks on a chain of " << line.size());
	c.count("tampered blocks", reached);
	c.nontrivial(reached > 0);
}

// Forged or damaged proofs of time, proofs of space and votes never count and are never passed on; the genuine ones then do.
static std::shared_ptr<ProofOfTime> tamper_vdf(Src& s, sim::Net& net, const ProofOfTime& good, const sim::key& tl, str& what) {
	auto v = copy_of(good); auto resign = [&] { v->hash = v->calc_hash(); v->timelord_key = tl.pk; v->timelord_sig = signature_t::sign(tl.sk, v->hash); v->content_hash = v->calc_content_hash(); };
	hash_t rnd; for(auto& x : rnd.bytes) x = uint8_t(s.range(0, 255));
	const auto compute = [&](const hash_t& in, const hash_t& infuse, const addr_t& reward, u64 iters, u64 seg) { v->segments.clear(); hash_t pt(hash_t(in + infuse) + reward); for(u64 i = 0; i < iters / seg; ++i) { for(u64 k = 0; k < seg; ++k) pt = hash_t(pt.bytes); v->segments.push_back(pt); } };
	switch(s.range(0, 15)) {
		case 0: what = "vdf segment"; v->segments[s.index(v->segments.size())] = rnd; resign(); break;
		case 1: what = "vdf last segment"; v->segments.back() = rnd; resign(); break;
		case 2: what = "vdf segment bit"; v->segments[s.index(v->segments.size())].bytes[s.range(0, 31)] ^= uint8_t(1 << s.range(0, 7)); resign(); break;
		case 3: what = "vdf fewer segments"; v->segments.pop_back(); if(v->segments.empty()) return nullptr; if(s.flip()) v->num_iters -= v->segment_size; resign(); break;
		case 4: what = "vdf more segments"; { hash_t p = v->segments.back(); for(u64 k = 0; k < v->segment_size; ++k) p = hash_t(p.bytes); v->segments.push_back(p); if(s.flip()) v->num_iters += v->segment_size; resign(); } break;
		case 5: what = "vdf segments swapped"; if(v->segments.size() < 2) return nullptr; std::swap(v->segments[0], v->segments[1]); resign(); break;
		case 6: what = "vdf reward_addr"; v->reward_addr = net.w.user[5].addr; if(v->reward_addr == good.reward_addr) return nullptr; resign(); break;
		case 7: what = "vdf infused block"; v->prev = s.flip() ? rnd : net.w.project; if(s.flip()) compute(v->input, v->prev, v->reward_addr, v->num_iters, v->segment_size); resign(); break;
		case 8: what = "vdf input"; v->input = rnd; if(s.flip()) compute(v->input, v->prev, v->reward_addr, v->num_iters, v->segment_size); resign(); break;
		case 9: what = "vdf segment size"; { const u64 seg = v->segment_size / 2; compute(v->input, v->prev, v->reward_addr, v->num_iters, seg); v->segment_size = uint32_t(seg); resign(); } break;
		case 10: what = "vdf signature"; if(s.flip()) { v->timelord_sig = signature_t::sign(net.w.user[5].sk, v->hash); } else { v->timelord_sig.bytes[s.range(0, 63)] ^= 1; } v->content_hash = v->calc_content_hash(); break;
		case 11: what = "vdf hash"; v->hash = rnd; v->timelord_sig = signature_t::sign(tl.sk, v->hash); v->timelord_key = tl.pk; v->content_hash = v->calc_content_hash(); break;
		case 12: what = "vdf content hash"; v->content_hash = rnd; break;
		case 13: what = "vdf start"; v->start += s.of<u64>({v->num_iters, 1, 1000000}); resign(); break;
		case 14: what = "vdf height"; v->vdf_height += uint32_t(s.of<u64>({1, 2, 100})); resign(); break;
		case 15: what = "vdf twice as far"; compute(v->input, v->prev, v->reward_addr, v->num_iters * 2, v->segment_size); v->num_iters *= 2; resign(); break;
	}
	return v;
}
static std::shared_ptr<ProofResponse> tamper_response(Src& s, sim::Net& net, const ProofResponse& good, const sim::key& farmer, str& what) {
	auto r = copy_of(good); auto p = std::dynamic_pointer_cast<ProofOfSpaceOG>(vnx::clone(good.proof)); if(!p) return nullptr;
	const sim::key* by = &farmer; bool done = false;
	hash_t rnd; for(auto& x : rnd.bytes) x = uint8_t(s.range(0, 255));
	switch(s.range(0, 10)) {
		case 0: what = "proof xs"; p->proof_xs[s.index(p->proof_xs.size())] ^= 1u << s.range(0, 12); p->score = get_proof_score(p->calc_proof_hash()); break;
		case 1: what = "proof score"; p->score++; break;
		case 2: what = "proof challenge"; p->challenge = rnd; p->score = get_proof_score(p->calc_proof_hash()); break;
		case 3: what = "proof difficulty"; p->difficulty = s.of<u64>({p->difficulty + 1, p->difficulty - 1, 0, 1}); if(p->difficulty == std::dynamic_pointer_cast<const ProofOfSpaceOG>(good.proof)->difficulty) return nullptr; break;
		case 4: what = "proof of another farmer"; by = &net.w.user[5]; p->farmer_key = by->pk; break;
		case 5: what = "proof plot id"; p->plot_id = rnd; break;
		case 6: what = "proof seed"; p->seed = rnd; break;
		case 7: what = "proof signature"; r->farmer_sig = signature_t::sign(net.w.user[5].sk, r->hash); r->content_hash = r->calc_content_hash(); done = true; break;
		case 8: what = "proof height"; r->vdf_height += uint32_t(s.of<int>({1, -1, 2, 50})); break;
		case 9: what = "proof ksize"; p->ksize = uint8_t(s.of<u64>({0, 7, 10, 17})); break;
		case 10: what = "proof missing"; p = nullptr; break;
	}
	if(!done) { r->proof = p; r->hash = r->calc_hash(); r->farmer_sig = signature_t::sign(by->sk, r->hash); r->content_hash = r->calc_content_hash(); }
	return r;
}
PROPERTY(tampered_inputs) {
	sim::Net net("inputs"); draw_params(s, net, c); net.params->commit_delay = uint32_t(s.of<u64>({2, 2, 4})); net.init();
	auto n = net.make_node(); auto a = n->api();
	std::map<hash_t, std::set<hash_t>> genuine;		// challenge => proof hashes
	std::set<std::pair<hash_t, hash_t>> responded; std::set<hash_t> shown;
	u64 bad = 0, votes = 0; uint32_t last = 0;
	const auto steps = s.range(3, 14);
	auto published = [&](const str& topic) { size_t k = 0; for(const auto& p : n->out) k += p.topic == topic; return k; };
	auto check_votes = [&] {
		const auto b = n->peak(); if(b->height == last || !b->height) return; last = b->height;
		for(const auto& x : b->proof) CHECK_MSG(genuine[x->challenge].count(x->calc_proof_hash()), "block " << b->height << " contains a proof that no plot has");
		if(*genuine[b->proof[0]->challenge].begin() != b->proof_hash) return;
		std::set<pubkey_t> validators;
		for(int h = int(b->height) - int(net.params->commit_delay); h > 0 && validators.size() < net.params->max_validators; --h) validators.insert(a.get_block_at(uint32_t(h))->proof[0]->farmer_key);
		auto vote = [&](const sim::key& k, const hash_t& hash) { auto v = ValidatorVote::create(); v->hash = hash; v->farmer_key = k.pk; v->farmer_sig = signature_t::sign(k.sk, hash_t("MMX/validator/vote/" + hash + k.pk)); v->content_hash = v->calc_content_hash(); return v; };
		std::vector<sim::key> keys(net.w.farmer); keys.push_back(net.w.user[5]);
		for(const auto& k : keys) {
			auto good = vote(k, b->hash);
			const auto m = s.range(0, 2);
			for(u64 i = 0; i < m; ++i) {
				auto v = vnx::clone(good);
				switch(s.range(0, 3)) {
					case 0: v->farmer_sig = signature_t::sign(net.w.user[4].sk, hash_t("MMX/validator/vote/" + b->hash + k.pk)); break;
					case 1: v->farmer_sig = vote(k, b->prev)->farmer_sig; break;
					case 2: v->farmer_sig = signature_t::sign(k.sk, b->hash); break;
					case 3: v->farmer_key = net.w.farmer[s.index(3)].pk; if(v->farmer_key == k.pk) continue; break;
				}
				v->content_hash = v->calc_content_hash(); bad++; c.label("vote");
				n->out.clear(); n->deliver(v); n->update();
				CHECK_MSG(!published("node.verified_votes"), "a vote with an invalid signature was counted at height " << b->height);
			}
			n->out.clear(); n->deliver(good); n->update();
			const size_t want = validators.count(k.pk);
			CHECK_MSG(published("node.verified_votes") == want, "vote of " << (want ? "a validator was not" : "a farmer who is no validator was") << " counted at height " << b->height);
			if(s.flip()) { n->out.clear(); n->deliver(good); n->update(); CHECK_MSG(!published("node.verified_votes"), "a vote was counted twice at height " << b->height); }
			votes += want;
		}
	};
	for(u64 i = 0; i < steps; ++i) {
		n->out.clear(); n->update();
		std::shared_ptr<const IntervalRequest> req; for(const auto& r : n->take<IntervalRequest>("timelord.requests")) if(r->input) req = r;
		if(!req) break;
		sim::set_time(sim::now_ms() + net.params->block_interval_ms);
		const auto& tl = net.w.timelord[s.index(3)]; const auto reward = tl_addr(net, s);
		auto v = sim::make_vdf(net.params, tl, reward, req->vdf_height, req->start, req->end - req->start, *req->input, req->infuse);
		const auto vh = a.get_vdf_height(); const auto vp = a.get_vdf_peak();
		const auto bad_vdfs = s.range(0, 3);
		for(u64 k = 0; k < bad_vdfs; ++k) {
			str what; auto x = tamper_vdf(s, net, *v, net.w.timelord[s.index(3)], what); if(!x) continue;
			c.label(what); bad++;
			n->out.clear(); n->deliver(x); n->update(); n->pump();
			CHECK_MSG(!published("node.verified_vdfs") && !published("node.vdf_points"), "an invalid proof of time (" << what << ") was passed on");
			CHECK_MSG(a.get_vdf_height() == vh && a.get_vdf_peak() == vp, "an invalid proof of time (" << what << ") was accepted");
		}
		net.all.add(v); n->out.clear(); n->deliver(v);
		CHECK_MSG(a.get_vdf_height() == vh + 1 && a.get_vdf_peak() == v->get_output(), "genuine proof of time for height " << vh + 1 << " not accepted");
		n->update(); check_votes();
		// proofs
		const auto hb = n->height(); n->out.clear(); n->update();
		std::vector<std::pair<std::shared_ptr<ProofResponse>, const sim::key*>> good; std::set<hash_t> seen;
		for(const auto& ch : n->take<Challenge>("harvester.challenges")) if(seen.insert(ch->challenge).second) net.each_plot([&](const sim::plot& p) { const auto& f = net.w.farmer[p.farmer]; for(auto& x : sim::find_proofs(p, f, net.params, ch->challenge, ch->difficulty, ch->vdf_height)) if(responded.count({ch->challenge, x->calc_proof_hash()}) == 0) good.emplace_back(sim::make_response(x, f, ch->vdf_height, net.farmers[p.farmer].mac()), &f); });
		s.shuffle(good); if(good.size() > 4) good.resize(s.range(1, 6) > good.size() ? good.size() : s.range(1, 4));
		for(auto& g : good) if(s.flip()) { str what; auto x = tamper_response(s, net, *g.first, *g.second, what); if(!x) continue; c.label(what); bad++; n->out.clear(); n->deliver(x); n->update(); n->update(); for(const auto& r : n->take<ProofResponse>("node.verified_proof")) CHECK_MSG(r->hash != x->hash || r->content_hash != x->content_hash, "an invalid proof of space (" << what << ") was passed on"); check_votes(); }
		n->out.clear();
		for(auto& g : good) { genuine[g.first->proof->challenge].insert(g.first->proof->calc_proof_hash()); responded.insert({g.first->proof->challenge, g.first->proof->calc_proof_hash()}); n->deliver(g.first); }
		n->update(); n->update();
		std::set<hash_t> passed; for(const auto& r : n->take<ProofResponse>("node.verified_proof")) passed.insert(r->content_hash);
		if(n->height() == hb) for(auto& g : good) CHECK_MSG(passed.count(g.first->content_hash), "a genuine proof of space for VDF height " << g.first->vdf_height << " was not accepted (VDF height " << a.get_vdf_height() << ", peak " << n->height() << ", last height " << hb << ", passed " << passed.size() << " of " << good.size() << ")");
		check_votes();
		for(int h = int(last); h > 0; --h) { auto b = a.get_block_at(uint32_t(h)); if(net.all.block.count(b->hash)) break; net.all.add(b); }
	}
	NOTE(bad << " altered inputs, " << votes << " genuine votes, height " << n->height());
	c.count("tampered", bad); c.count("votes", votes); c.count("height", n->height());
	c.nontrivial(bad > 0);
}

// Whatever transactions are around, a node that holds a proof for the next VDF height makes a block, another node that hears of it
// accepts it, and either can make the next one.
PROPERTY(production) {
	sim::Net net("prod"); draw_params(s, net, c); net.init();
	std::unique_ptr<sim::Node> n[2] = {net.make_node(), net.make_node()};
	sim::Ledger led(net.params); led.follow(*n[0]);
	sim::Gen gen(net, led);
	const auto blocks = s.range(4, 14); u64 made = 0, missed = 0; std::set<hash_t> knows[2];
	for(u64 i = 0; i < blocks; ++i) {
		for(auto& tx : gen.batch(s, c, i < 2 ? 12 : s.range(0, s.chance(25) ? 40 : 12))) { const auto w = s.range(0, 4); if(w != 0) n[0]->send(tx); if(w != 1) n[1]->send(tx); }
		for(auto& x : n) { x->pump(); x->check_pool(); }
		const size_t who = s.index(2); auto& p = *n[who]; auto& o = *n[!who];
		if(s.chance(5)) { p.restart(); c.label("restart"); for(int k = 0; k < 3; ++k) p.update(); }
		const auto old = p.height(); net.proven.clear(); net.asked.clear();
		bool done = false;
		for(int k = 0; k < 12 && !done; ++k) {
			if(!net.advance_vdf(p, net.w.timelord[s.index(3)], tl_addr(net, s))) break;
			net.farm(p, unsigned(s.range(1, 7)), int(s.range(1, 3)));
			p.out.clear(); p.update(); p.pump(); p.update();
			net.collect(p);
			done = p.height() > old;
			const auto ch = net.asked[net.last_vdf]; bool used = false; for(auto& f : net.farmers) used |= f.used.count(ch) > 0;		// a proof is good for one block only
			CHECK_MSG(done || used || !net.proven.count({net.last_vdf, ch}), "no block at height " << old + 1 << " although there is an unused proof for VDF height " << net.last_vdf);
		}
		if(!done) { missed++; continue; }
		made++; const auto made_at = p.height();
		// each hears of what the other has made, until there is nothing new
		for(bool more = true; more;) { more = false; for(int k = 0; k < 2; ++k) { auto& to = *n[who ^ k ^ 1]; net.collect(*n[who ^ k]); for(const auto& b : line_of(*n[who ^ k])) if(knows[who ^ k ^ 1].insert(b->hash).second) { knows[who ^ k].insert(b->hash); net.tell(to, b); more = true; } } }
		const auto ho = *o.api().get_block_hash(o.height()), hp = *p.api().get_block_hash(p.height());
		CHECK_MSG(o.height() >= made_at, "the block produced at height " << made_at << " is not accepted by another node, which stays at " << o.height());
		CHECK_MSG(ho == hp, "two nodes that know the same blocks are at " << p.height() << " " << hp << " and " << o.height() << " " << ho);
		const auto b = p.peak();
		CHECK_MSG(b->static_cost <= net.params->max_block_size && b->total_cost <= net.params->max_block_cost && b->proof.size() <= net.params->max_proof_count, "block limits exceeded");
		led.follow(p); c.count("transactions", b->tx_list.size());
	}
	for(const auto& f : net.farmers) for(const auto& b : f.made) CHECK_MSG(net.ever_asked.count({b->vdf_height, b->proof[0]->challenge}), "a block was made for VDF height " << b->vdf_height << " with a proof that is for another one");
	for(const auto& f : net.farmers) for(const auto& b : f.made) NOTE("height " << b->height << " VDF height " << b->vdf_height << " " << b->tx_count << " transactions, " << b->hash);
	c.count("blocks", made); c.count("no proof", missed);
	c.nontrivial(made > 2);
}

// Nodes that heard of the same blocks, in whatever order and with whatever repetition and restarts, have the same chain: the longest
// one, of equally long ones the one with the lowest hash.
PROPERTY(agreement) {
	sim::Net net("agree"); draw_params(s, net, c); net.params->commit_delay = uint32_t(s.of<u64>({4, 6, 8})); net.init();
	std::vector<std::unique_ptr<sim::Node>> n; const auto k = s.range(2, 3); for(u64 i = 0; i < k; ++i) n.push_back(net.make_node());
	sim::Ledger led(net.params); led.follow(*n[0]); sim::Gen gen(net, led);
	auto step = [&](sim::Node& p) { if(s.flip()) { for(auto& tx : gen.batch(s, c, s.range(0, 3))) p.send(tx); p.pump(); p.check_pool(); } net.grow(p, unsigned(s.range(1, 7)), s.index(3), tl_addr(net, s), -1, int(s.range(1, 2))); };
	const auto common = s.range(0, 7);
	for(u64 i = 0; i < common; ++i) step(*n[0]);
	const auto base = line_of(*n[0]);
	for(auto& x : n) for(const auto& b : base) net.tell(*x, b);
	const auto h0 = n[0]->height();
	for(auto& x : n) CHECK_MSG(x->height() == h0, "common chain not taken");
	// blocks made apart: sometimes a node hears of part of another's
	const auto rounds = s.range(1, net.params->commit_delay - 1);
	std::map<hash_t, block_p> news;
	for(u64 r = 0; r < rounds; ++r) for(auto& x : n) {
		if(s.chance(75)) { step(*x); for(auto b = x->peak(); b->height > h0; b = x->api().get_block_at(b->height - 1)) news[b->hash] = b; }
		if(news.size() && s.chance(15)) { auto it = news.begin(); std::advance(it, s.index(news.size())); net.tell(*x, it->second); }
	}
	for(auto& x : n) { net.collect(*x); for(auto b = x->peak(); b->height > h0; b = x->api().get_block_at(b->height - 1)) news[b->hash] = b; }
	std::vector<block_p> all; for(const auto& e : news) all.push_back(e.second);
	if(all.empty()) throw pbt::discard();
	block_p best; for(const auto& b : all) if(!best || b->height > best->height || (b->height == best->height && b->hash < best->hash)) best = b;
	std::set<hash_t> parents; for(const auto& b : all) parents.insert(b->prev); size_t tips = 0; for(const auto& b : all) tips += !parents.count(b->hash);
	for(auto& f : net.farmers) f.refuse = true;		// no more blocks
	n.push_back(replay(net, base)); n.push_back(replay(net, base));
	for(auto& x : n) {
		s.shuffle(all);
		if(s.chance(20)) { x->restart(); for(const auto& b : base) net.tell(*x, b); }
		for(const auto& b : all) { if(s.chance(70)) net.tell(*x, b); else { x->send(b); if(s.flip()) x->update(); } }
		for(const auto& b : all) net.tell(*x, b);
		if(s.flip()) for(const auto& b : all) net.tell(*x, b);
		x->update(); x->update();
		CHECK_MSG(x->peak() && x->peak()->hash == best->hash, "a node that heard of all " << all.size() << " blocks (" << tips << " chains from height " << h0 << ") is at height " << x->height() << " " << (x->peak() ? x->peak()->hash : hash_t()) << " instead of " << best->height << " " << best->hash);
	}
	NOTE("common height " << h0 << ", " << all.size() << " blocks in " << tips << " chains, " << n.size() << " nodes; settled at height " << best->height << " " << best->hash);
	c.count("chains", tips);
	c.nontrivial(tips > 1);
}

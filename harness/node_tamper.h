#pragma once
// Blocks that break one rule of the chain, signed by a farmer who owns a genuine proof for them.
#include "node_gen.h"
#include "node_dump.h"

namespace sim {

struct Tamper {
	Net& net; Src& s; const Ledger& led; const std::vector<block_p>& line;		// genesis excluded, up to the parent of b
	block_p genesis, parent, good; uint32_t root;			// root: height of the last final block
	std::shared_ptr<Block> b; bool resign = true; str what; std::vector<block_p> before;		// blocks to be told before b

	block_p at(uint32_t h) const { return h ? h <= line.size() ? line[h - 1] : nullptr : genesis; }
	const key& thief = net.w.timelord[2];
	addr_t attacker() const { return thief.addr; }

	uint64_t reward_for(uint64_t fees) const {
		uint64_t r = parent->base_reward; const auto d = calc_min_reward_deduction(net.params, parent->txfee_buffer);
		if(net.params->min_reward > d) r += net.params->min_reward - d;
		return calc_final_block_reward(net.params, r, fees);
	}
	void totals() {		// everything that follows from the transaction list
		b->finalize(net.params);
		if(b->reward_addr) b->reward_amount = reward_for(b->tx_fees);
	}
	void order() { std::sort(b->proof.begin(), b->proof.end(), [](const auto& x, const auto& y) { return x->calc_proof_hash() < y->calc_proof_hash(); }); }
	void derive(std::shared_ptr<const BlockHeader> p) {		// everything that follows from proofs and parent
		if(b->proof.size()) b->proof_hash = b->proof[0]->calc_proof_hash();
		b->proof_chain = calc_proof_chain(net.params, p, b->proof_hash);
		if(b->vdf_count && b->vdf_count < 1000) {
			b->challenge = calc_next_challenge(net.params, p, b, b->is_space_fork);
			b->weight = calc_block_weight(net.params, b, p); b->total_weight = p->total_weight + b->weight;
		}
		b->set_space_diff(net.params, p); b->set_base_reward(net.params, p);
	}
	void sign() {
		b->hash = b->calc_hash(net.params);
		if(b->proof.size()) for(const auto& f : net.w.farmer) if(f.pk == b->get_farmer_key()) b->farmer_sig = signature_t::sign(f.sk, b->hash);
		b->content_hash = b->calc_content_hash();
	}
	hash_t rnd() { hash_t h; for(auto& x : h.bytes) x = uint8_t(s.range(0, 255)); return h; }
	bool maybe() { return s.flip(); }
	template<typename T> static T other(Src& s, T v, T lo = 0) { const u64 d = s.pick_weighted<u64>({{6, 1}, {2, 2}, {2, s.range(1, 1000)}}); if(s.flip() && u64(v) >= u64(lo) + d) return T(v - d); return T(v + d); }
	std::shared_ptr<ProofOfSpace> edit_proof(size_t i) { auto p = vnx::clone(b->proof[i]); b->proof[i] = p; return p; }
	std::shared_ptr<Transaction> edit_tx(size_t i) { auto t = vnx::clone(b->tx_list[i]); b->tx_list[i] = t; return t; }
	// a payment as a farmer would include it
	std::shared_ptr<Transaction> payment(const key& from, const addr_t& to, const uint128& in, const uint128& out, const key& signer, uint32_t ratio) {
		auto t = Transaction::create(); t->version = get_transaction_version(net.params, b->height); t->network = net.params->network; t->nonce = 1 + s.u64() / 2; t->fee_ratio = ratio; t->max_fee_amount = 100000000; t->sender = from.addr;
		txin_t i; i.address = from.addr; i.amount = in; i.solution = 0; t->inputs.push_back(i);
		txout_t o; o.address = to; o.amount = out; t->outputs.push_back(o);
		auto sol = solution::PubKey::create(); t->solutions.push_back(sol);
		t->id = t->calc_hash(); sol->pubkey = signer.pk; sol->signature = signature_t::sign(signer.sk, t->id);
		return t;
	}
	void result(Transaction& t, const exec_result_t* r = nullptr) {		// with its cost and fee
		t.exec_result = nullptr; t.static_cost = t.calc_cost(net.params);
		exec_result_t x; if(r) x = *r;
		x.total_cost = uint32_t(t.static_cost); x.total_fee = uint32_t(uint128_t(t.static_cost) * t.fee_ratio / 1024);
		t.exec_result = x; t.static_cost = t.calc_cost(net.params); t.content_hash = t.calc_hash(true);
	}
	// top of the fee order, so that position and minimum fee are never the reason
	uint32_t top_ratio() const { uint32_t r = 100000; for(const auto& t : b->tx_list) r = std::max(r, t->fee_ratio); return r; }
	void insert(std::shared_ptr<Transaction> t) { b->tx_list.insert(b->tx_list.begin(), t); }
	const key& payer() const { const key* best = &net.w.user[0]; for(const auto& u : net.w.user) if(led.get(u.addr, addr_t()) > led.get(best->addr, addr_t())) best = &u; return *best; }

	bool genuine() const {		// whether by coincidence all proofs are good for this block's challenge
		for(const auto& x : b->proof) {
			bool ok = false;
			net.each_plot([&](const plot& p) { if(p.id == x->plot_id) for(const auto& y : find_proofs(p, net.w.farmer[p.farmer], net.params, good->proof[0]->challenge, good->proof[0]->difficulty, good->vdf_height)) if(y->calc_proof_hash() == x->calc_proof_hash() && y->challenge == x->challenge) ok = true; });
			if(!ok) return false;
		}
		return true;
	}
	bool apply() {
		b = vnx::clone(good); resign = true; before.clear();
		const auto n_tx = b->tx_list.size();
		switch(s.range(0, 64)) {
		// ---- position
		case 0: what = "height"; { const auto h = s.pick_weighted<u64>({{3, b->height + 1}, {3, root + 1}, {2, u64(b->height) - 1}, {1, b->height + 5}, {1, root + 2}, {1, 0xFFFFFFFFu}}); if(h == b->height || h <= root) return false; b->height = uint32_t(h); if(maybe()) derive(parent); if(b->height % net.params->vdf_reward_interval) b->vdf_reward_payout = nullptr; } break;
		case 1: what = "prev"; { const auto h = s.range(0, parent->height); auto p = at(uint32_t(h)); if(!p || p == parent) return false; b->prev = p->hash; if(maybe()) derive(p); } break;
		case 2: what = "unknown prev"; b->prev = rnd(); if(s.flip()) b->height = root + 1; else if(s.flip()) b->height = root + uint32_t(s.range(1, 4));
			if(s.flip()) { what = "chain out of nowhere"; for(u64 i = s.range(1, 3); i; --i) { sign(); before.push_back(b); auto x = vnx::clone(b); x->prev = b->hash; x->height++; b = x; if(maybe()) derive(before.back()); } } break;
		// ---- proof of time
		case 3: what = "vdf_height"; b->vdf_height = other(s, b->vdf_height, 1u); break;
		case 4: what = "vdf_count"; if(s.flip() || b->vdf_count < 2) { b->vdf_count++; b->vdf_reward_addr.push_back(attacker()); } else { b->vdf_count--; b->vdf_reward_addr.pop_back(); } if(maybe()) b->vdf_height = parent->vdf_height + b->vdf_count; if(maybe()) derive(parent); break;
		case 5: what = "vdf_iters"; b->vdf_iters = other(s, b->vdf_iters, uint64_t(1)); if(maybe()) derive(parent); break;
		case 6: what = "vdf_output"; b->vdf_output = s.flip() ? rnd() : parent->vdf_output; break;
		case 7: what = "vdf_reward_addr"; b->vdf_reward_addr[s.index(b->vdf_reward_addr.size())] = attacker(); break;
		// ---- proof of space
		case 8: what = "proof order"; if(b->proof.size() < 2) return false; std::swap(b->proof[0], b->proof[s.range(1, b->proof.size() - 1)]); if(maybe()) { derive(parent); } break;
		case 9: what = "duplicate proof"; b->proof.push_back(b->proof[s.index(b->proof.size())]); order(); derive(parent); break;
		case 10: what = "proof xs"; { auto p = std::dynamic_pointer_cast<ProofOfSpaceOG>(edit_proof(s.index(b->proof.size()))); if(!p) return false; p->proof_xs[s.index(p->proof_xs.size())] ^= 1u << s.range(0, 10); if(maybe()) p->score = get_proof_score(p->calc_proof_hash()); order(); derive(parent); } break;
		case 11: what = "proof of another challenge"; { auto o = at(uint32_t(s.range(1, parent->height))); if(!o || o->proof.empty() || o->proof[0]->challenge == b->proof[0]->challenge) return false; b->proof = o->proof; if(maybe()) for(size_t i = 0; i < b->proof.size(); ++i) { auto p = edit_proof(i); p->challenge = good->proof[0]->challenge; p->difficulty = good->proof[0]->difficulty; p->score = get_proof_score(p->calc_proof_hash()); } order(); derive(parent); if(genuine()) return false; } break;
		case 12: what = "proof score"; { auto p = edit_proof(s.index(b->proof.size())); p->score = uint16_t(other(s, p->score)); } break;
		case 13: what = "proof difficulty"; { const auto d = other(s, b->proof[0]->difficulty, uint64_t(1)); for(size_t i = 0; i < b->proof.size(); ++i) edit_proof(i)->difficulty = d; derive(parent); } break;
		case 14: what = "farmer key"; { auto p = edit_proof(0); const auto& f = net.w.farmer[s.index(3)]; if(f.pk == p->farmer_key) return false; p->farmer_key = f.pk; } break;
		case 15: what = "plot id"; { auto p = edit_proof(s.index(b->proof.size())); p->plot_id = rnd(); } break;
		case 16: what = "ksize"; { const auto i = s.index(b->proof.size()); auto p = std::dynamic_pointer_cast<ProofOfSpaceOG>(edit_proof(i)); if(!p) return false; const auto k = uint8_t(s.of<u64>({0, 7, 8, 9, 10, 32})); if(p->ksize == k) return false; p->ksize = k; } break;
		case 17: what = "too many proofs"; { if(b->proof.size() > net.params->max_proof_count) return false; while(b->proof.size() <= net.params->max_proof_count) { auto p = std::dynamic_pointer_cast<ProofOfSpaceOG>(vnx::clone(b->proof[0])); if(!p) return false; p->proof_xs[0] += uint32_t(b->proof.size()); p->score = get_proof_score(p->calc_proof_hash()); b->proof.push_back(p); } order(); derive(parent); } break;
		case 18: what = "proof_hash"; b->proof_hash = rnd(); if(maybe()) { const auto h = b->proof_hash; derive(parent); b->proof_hash = h; b->proof_chain = calc_proof_chain(net.params, parent, h); } break;
		case 19: what = "proof_chain"; b->proof_chain = s.flip() ? rnd() : parent->proof_chain; if(maybe()) { b->challenge = calc_next_challenge(net.params, parent, b, b->is_space_fork); b->set_space_diff(net.params, parent); } break;
		case 20: what = "challenge"; b->challenge = s.flip() ? rnd() : parent->challenge; break;
		case 21: what = "is_space_fork"; b->is_space_fork = !b->is_space_fork; if(maybe()) b->set_space_diff(net.params, parent); break;
		case 22: what = "space_diff"; b->space_diff = s.chance(20) ? 0 : other(s, b->space_diff); break;
		case 23: what = "space_fork_len"; b->space_fork_len = other(s, b->space_fork_len); break;
		case 24: what = "space_fork_proofs"; b->space_fork_proofs = other(s, b->space_fork_proofs); break;
		case 25: what = "weight"; { const uint128_t d = s.range(1, 1000); b->weight = b->weight + d; if(maybe()) b->total_weight = parent->total_weight + b->weight; } break;
		case 26: what = "total_weight"; { const uint128_t d = s.flip() ? uint128_t(s.range(1, 1000)) : uint128_t(1) << 90; b->total_weight = b->total_weight + d; } break;
		case 27: what = "time_diff"; { const u64 up = std::max<u64>(parent->time_diff >> net.params->max_diff_adjust, 1); b->time_diff = s.flip() ? parent->time_diff + up + s.range(1, 1000) : s.range(0, net.params->time_diff_divider - 1); } break;
		case 28: what = "time_diff down"; { const u64 up = std::max<u64>(parent->time_diff >> net.params->max_diff_adjust, 1); if(parent->time_diff < up + 1) return false; b->time_diff = parent->time_diff - up - 1; } break;
		// ---- rewards
		case 29: what = "txfee_buffer"; b->txfee_buffer = other(s, b->txfee_buffer); break;
		case 30: what = "reward_vote"; b->reward_vote = int8_t(s.of<int>({2, -2, 7, 127, -128})); b->set_base_reward(net.params, parent); break;
		case 31: what = "reward_amount"; if(!b->reward_addr) return false; b->reward_amount = s.chance(20) ? 0 : other(s, b->reward_amount); if(b->reward_amount == good->reward_amount) return false; break;
		case 32: what = "reward_amount without address"; b->reward_addr = nullptr; if(!b->reward_amount) b->reward_amount = 1; break;
		case 33: what = "base_reward"; b->base_reward = other(s, b->base_reward); break;
		case 34: what = "reward_vote_sum"; b->reward_vote_sum += s.of<int>({1, -1, 50, -50}); break;
		case 35: what = "reward_vote_count"; b->reward_vote_count = other(s, b->reward_vote_count); break;
		case 36: what = "vdf_reward_payout"; if(b->vdf_reward_payout && s.flip()) b->vdf_reward_payout = nullptr; else b->vdf_reward_payout = attacker(); break;
		case 37: what = "project_addr"; b->project_addr = attacker(); break;
		case 38: what = "reward_contract"; if(b->reward_contract) b->reward_contract = nullptr; else b->reward_contract = net.w.project; break;
		// ---- form
		case 39: what = "time stamp"; { const int64_t iv = net.params->block_interval_ms * int64_t(b->vdf_count); b->time_stamp = parent->time_stamp + s.of<int64_t>({iv * 2 + 1, iv / 2 - 1, 0, -1, iv * 20}); if(s.chance(10)) b->time_stamp = -1; } break;
		case 40: what = "version"; b->version = uint32_t(s.range(1, 3)); break;
		case 41: what = "farmer_sig missing"; b->farmer_sig = nullptr; b->content_hash = b->calc_content_hash(); resign = false; break;
		case 42: what = "farmer_sig of another key"; b->nonce++; b->hash = b->calc_hash(net.params); b->farmer_sig = signature_t::sign(thief.sk, b->hash); b->content_hash = b->calc_content_hash(); resign = false; break;
		case 43: what = "farmer_sig of another block"; b->nonce++; b->hash = b->calc_hash(net.params); b->content_hash = b->calc_content_hash(); resign = false; break;
		case 44: what = "block hash"; b->hash = rnd(); if(b->proof.size()) for(const auto& f : net.w.farmer) if(f.pk == b->get_farmer_key()) b->farmer_sig = signature_t::sign(f.sk, b->hash); b->content_hash = b->calc_content_hash(); resign = false; break;
		case 45: what = "content hash"; b->nonce++; b->hash = b->calc_hash(net.params); for(const auto& f : net.w.farmer) if(f.pk == b->get_farmer_key()) b->farmer_sig = signature_t::sign(f.sk, b->hash); b->content_hash = rnd(); resign = false; break;
		// ---- transaction totals
		case 46: what = "tx_hash"; b->tx_hash = rnd(); break;
		case 47: what = "tx_count"; b->tx_count = other(s, b->tx_count); break;
		case 48: what = "tx_fees"; b->tx_fees = other(s, b->tx_fees); if(maybe() && b->reward_addr) b->reward_amount = reward_for(b->tx_fees); break;
		case 49: what = "static_cost"; b->static_cost = other(s, b->static_cost); break;
		case 50: what = "total_cost"; b->total_cost = other(s, b->total_cost); break;
		// ---- transactions
		case 51: what = "duplicate transaction"; if(!n_tx) return false; { const auto i = s.index(n_tx); b->tx_list.insert(b->tx_list.begin() + i, b->tx_list[i]); totals(); } break;
		case 52: what = "fee order"; { size_t i = 0; while(i + 1 < n_tx && b->tx_list[i]->fee_ratio == b->tx_list[i + 1]->fee_ratio) i++; if(i + 1 >= n_tx) return false; std::swap(b->tx_list[i], b->tx_list[i + 1]); totals(); } break;
		case 53: what = "execution result"; if(!n_tx) return false; { auto t = edit_tx(s.index(n_tx)); auto& r = *t->exec_result;
			switch(s.range(0, 8)) {
				case 0: r.total_fee = other(s, r.total_fee); what += ": fee"; break;
				case 1: r.total_cost = other(s, r.total_cost); what += ": cost"; break;
				case 2: r.did_fail = !r.did_fail; if(maybe()) { if(r.did_fail) { r.inputs.clear(); r.outputs.clear(); r.error = exec_error_t(); } else r.error = nullptr; } what += ": did_fail"; break;
				case 3: { txout_t o; o.address = attacker(); o.amount = s.range(1, 1000); r.outputs.push_back(o); what += ": extra output"; } break;
				case 4: if(r.outputs.empty()) return false; { auto& o = r.outputs[s.index(r.outputs.size())]; if(maybe()) o.address = attacker(); else o.amount = o.amount + uint128_t(1); } what += ": output"; break;
				case 5: if(r.inputs.empty()) return false; { const auto i = s.index(r.inputs.size()); if(maybe()) r.inputs.erase(r.inputs.begin() + i); else r.inputs[i].amount = uint128(1); } what += ": input"; break;
				case 6: if(r.outputs.empty()) return false; r.outputs.pop_back(); what += ": missing output"; break;
				case 7: if(!r.error || !r.did_fail) return false; r.error->code += 1; what += ": error code"; break;
				case 8: t->exec_result = nullptr; what += ": none"; break;
			}
			t->static_cost = t->calc_cost(net.params); t->content_hash = t->calc_hash(true); totals(); } break;
		case 54: what = "transaction edit"; if(!n_tx) return false; { auto t = edit_tx(s.index(n_tx));
			switch(s.range(0, 6)) {
				case 0: if(t->outputs.empty()) return false; t->outputs[s.index(t->outputs.size())].address = attacker(); what += ": output"; break;
				case 1: t->static_cost = other(s, t->static_cost); what += ": static_cost"; break;
				case 2: t->solutions.clear(); what += ": no solutions"; break;
				case 3: t->sender = attacker(); what += ": sender"; break;
				case 4: t->nonce++; what += ": nonce"; break;
				case 5: t->max_fee_amount++; what += ": max_fee_amount"; break;
				case 6: t->fee_ratio = t->fee_ratio - 1; what += ": fee_ratio"; break;
			}
			if(maybe()) t->id = t->calc_hash();
			if(maybe() && what != "transaction edit: static_cost") t->static_cost = t->calc_cost(net.params);
			t->content_hash = t->calc_hash(true); totals(); } break;
		case 55: what = "transaction of an earlier block"; { auto o = at(uint32_t(s.range(1, parent->height))); if(!o || o->tx_list.empty()) return false; auto t = vnx::clone(s.pick(o->tx_list)); b->tx_list.push_back(t); std::stable_sort(b->tx_list.begin(), b->tx_list.end(), [](const auto& x, const auto& y) { return x->fee_ratio > y->fee_ratio; }); totals(); } break;
		case 56: what = "signed by another"; insert(payment(payer(), attacker(), 1000, 1000, thief, top_ratio())); result(*const_cast<Transaction*>(b->tx_list[0].get())); totals(); break;
		case 57: what = "more out than in"; insert(payment(payer(), attacker(), 1000, 1001, payer(), top_ratio())); result(*const_cast<Transaction*>(b->tx_list[0].get())); totals(); break;
		case 58: what = "more than there is"; insert(payment(payer(), attacker(), uint128(uint128_t(1) << 80), uint128(uint128_t(1) << 80), payer(), top_ratio())); result(*const_cast<Transaction*>(b->tx_list[0].get())); totals(); break;
		case 59: what = "minted by its result"; { auto t = payment(payer(), attacker(), 1000, 1000, payer(), top_ratio()); exec_result_t r; txout_t o; o.address = attacker(); o.amount = 1000000; r.outputs.push_back(o); insert(t); result(*t, &r); totals(); } break;
		case 60: what = "input kept"; insert(payment(payer(), attacker(), 1000, 999, payer(), top_ratio())); result(*const_cast<Transaction*>(b->tx_list[0].get())); totals(); break;
		case 61: what = "wrong network or expired or version"; { auto t = payment(payer(), attacker(), 1000, 1000, payer(), top_ratio());
			switch(s.range(0, 3)) { case 0: t->network = "testnet"; break; case 1: t->expires = b->height - 1; break; case 2: t->version = 7; break; case 3: t->fee_ratio = 1; break; }
			t->id = t->calc_hash(); auto sol = solution::PubKey::create(); sol->pubkey = payer().pk; sol->signature = signature_t::sign(payer().sk, t->id); t->solutions = {sol};
			if(t->fee_ratio == 1) b->tx_list.push_back(t); else insert(t);
			result(*t); totals(); } break;
		case 62: what = "block too big"; { uint64_t size = 0, cost = 0; while(size <= net.params->max_block_size && cost <= net.params->max_block_cost) { if(b->tx_list.size() > 60) return false; auto t = payment(payer(), attacker(), 1000, 1000, payer(), top_ratio()); insert(t); result(*t); size = cost = 0; for(const auto& x : b->tx_list) { size += x->static_cost; cost += x->exec_result->total_cost; } } totals(); } break;
		case 63: what = "fee too small"; { const auto m = net.params->min_fee_ratio[0] * 1024; b->tx_list.clear(); auto t = payment(payer(), attacker(), 1000, 1000, payer(), uint32_t(m - s.of({1, 1, 100}))); insert(t); result(*t); totals(); } break;
		case 64: what = "fee too small for a full block"; { const auto& r = net.params->min_fee_ratio; const auto n = r.size(); size_t i = 1; while(i < n && r[i] == r[0]) i++; if(i >= n) return false; b->tx_list.clear(); uint64_t size = 0; while(size <= i * net.params->max_block_size / n) { if(b->tx_list.size() > 60) return false; auto t = payment(payer(), attacker(), 1000, 1000, payer(), uint32_t(r[i] * 1024 - 1)); insert(t); result(*t); size += t->static_cost; } totals(); } break;
		}
		return true;
	}
	// what a farmer may choose freely
	str legal() {
		b = vnx::clone(good); resign = true; str k;
		if(s.flip()) { b->nonce = s.u64(); k += " nonce"; }
		if(s.flip() && b->reward_addr && !b->reward_contract) { b->reward_addr = attacker(); k += " reward_addr"; }
		if(s.flip()) { b->reward_vote = int8_t(s.of<int>({-1, 0, 1})); b->set_base_reward(net.params, parent); k += " vote"; }
		if(s.flip()) { const int64_t iv = net.params->block_interval_ms * int64_t(b->vdf_count); b->time_stamp = parent->time_stamp + s.of<int64_t>({iv / 2, iv, iv * 2}); k += " time"; }
		if(s.flip()) { b->time_diff = parent->time_diff + 1; k += " time_diff"; }
		if(s.flip()) { b->tx_list.clear(); totals(); k += " no transactions"; }
		else if(s.flip()) { auto t = payment(payer(), attacker(), 1000, 1000, payer(), top_ratio()); b->tx_list.clear(); insert(t); result(*t); totals(); k += " own payment"; }
		if(s.flip() && b->proof.size() > 1) { b->proof.pop_back(); derive(parent); k += " fewer proofs"; }
		if(s.flip()) { b->support_flags = 0; k += " flags"; }
		sign();
		return k;
	}
};

} // sim

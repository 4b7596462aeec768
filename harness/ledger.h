#pragma once
// Reference ledger: what the blocks of a chain mean, recomputed from the raw transactions with unbounded integers,
// and the rules every accepted block has to satisfy.
#include "sim.h"
#include <mmx/contract/MultiSig.hxx>
#include <mmx/contract/PubKey.hxx>
#include <mmx/solution/MultiSig.hxx>
#include <mmx/solution/PubKey.hxx>
#include <mmx/operation/Deposit.hxx>
#include <mmx/tx_info_t.hxx>

namespace sim {

typedef std::pair<addr_t, addr_t> acct_t;		// (address, currency)
inline Z zof(const uint128& v) { Z z = v.upper(); z <<= 64; return z + Z(v.lower()); }
inline str zs(const Z& z) { return z.str(); }

struct io_t { hash_t txid; uint32_t height; tx_type_e::enum_t type; addr_t address, contract; Z amount; vnx::optional<str> memo; bool is_out; };

struct tx_rec { tx_p tx; uint32_t height; hash_t block; };

struct Ledger {
	params_p params;
	std::map<acct_t, Z> bal; std::map<addr_t, Z> supply;
	std::map<hash_t, tx_rec> txs; std::map<addr_t, std::shared_ptr<const Contract>> contracts;
	std::vector<block_p> blocks; std::vector<io_t> log;
	std::map<str, uint64_t> stat;
	explicit Ledger(params_p p) : params(p) {}
	Z get(const addr_t& a, const addr_t& c) const { auto it = bal.find({a, c}); return it != bal.end() ? it->second : Z(0); }
	static bool pub_ok(std::shared_ptr<const Solution> s, const addr_t& who, const hash_t& txid) {
		auto p = std::dynamic_pointer_cast<const solution::PubKey>(s);
		return p && addr_t(sha256_of(p->pubkey)) == who && p->signature.verify(p->pubkey, txid);
	}
	static hash_t sha256_of(const pubkey_t& k) { const str h = sha256(raw(k)); return hash_t::from_bytes(h.data()); }
	// may the owner(s) of what sits at `who` be taken to have agreed to txid?
	bool agreed(const addr_t& who, std::shared_ptr<const Solution> s, const hash_t& txid, bool contract) const {
		if(!s) return false;
		if(pub_ok(s, who, txid)) return true;
		if(!contract) return false;
		auto it = contracts.find(who);
		if(it == contracts.end()) return false;
		if(auto c = std::dynamic_pointer_cast<const contract::PubKey>(it->second)) return pub_ok(s, c->address, txid);
		if(auto c = std::dynamic_pointer_cast<const contract::MultiSig>(it->second)) {
			std::set<addr_t> who_signed;
			if(auto m = std::dynamic_pointer_cast<const solution::MultiSig>(s)) { for(const auto& e : m->solutions) if(c->owners.count(e.first) && pub_ok(e.second, e.first, txid)) who_signed.insert(e.first); }
			else for(const auto& o : c->owners) if(pub_ok(s, o, txid)) who_signed.insert(o);
			return who_signed.size() >= c->num_required;
		}
		return false;
	}
	void move(const hash_t& id, uint32_t h, tx_type_e::enum_t type, const txio_t& io, bool out) {
		auto& b = bal[{io.address, io.contract}]; const Z a = zof(io.amount);
		if(out) { b += a; supply[io.contract] += a; } else { b -= a; supply[io.contract] -= a; }
		log.push_back({id, h, type, io.address, io.contract, a, io.memo, out});
	}
	void check_tx(const Transaction& tx, const Block& b, const std::map<acct_t, Z>& start, std::map<acct_t, Z>& spent) {
		const auto& id = tx.id;
		CHECK_MSG(tx.calc_hash() == id, "transaction id is not its hash");
		CHECK_MSG(tx.network == params->network, "transaction of another network in block");
		CHECK_MSG(!txs.count(id), "transaction " << id << " included twice");
		CHECK_MSG(tx.exec_result, "no execution result");
		const auto& r = *tx.exec_result;
		CHECK_MSG(tx.sender && tx.solutions.size(), "no sender");
		CHECK_MSG(pub_ok(tx.solutions[0], *tx.sender, id), "fee of " << id << " not signed by its sender");
		CHECK_MSG(Z(r.total_fee) <= Z(tx.max_fee_amount), "fee " << r.total_fee << " above the limit " << tx.max_fee_amount);
		CHECK_MSG(r.total_cost >= tx.static_cost && (r.did_fail || r.total_cost <= params->max_tx_cost), "cost " << r.total_cost << " static " << tx.static_cost);
		{ Z want = Z(r.total_cost) * tx.fee_ratio / 1024; if(want > Z(tx.max_fee_amount)) { CHECK_MSG(r.did_fail, "transaction succeeded although its fee exceeds the limit"); want = tx.max_fee_amount; } CHECK_MSG(Z(r.total_fee) == want, "fee " << r.total_fee << " want " << want); }
		auto take = [&](const addr_t& a, const addr_t& cur, const uint128& amount, const char* what) {
			auto& sp = spent[{a, cur}]; sp += zof(amount);
			auto it = start.find({a, cur});
			CHECK_MSG(it != start.end() && sp <= it->second, "" << what << " of " << id << " at height " << b.height << " spends more than the balance: " << a.to_string() << " " << cur.to_string() << " spent " << sp << " had " << (it != start.end() ? it->second : Z(0)));
		};
		take(*tx.sender, addr_t(), uint128(r.total_fee), "fee");
		if(r.did_fail) {
			CHECK_MSG(r.inputs.empty() && r.outputs.empty(), "failed transaction moves coins");
			CHECK_MSG(r.error, "failed transaction without error");
			stat["failed"]++;
			return;
		}
		CHECK_MSG(tx.expires >= b.height, "transaction " << id << " expired at " << tx.expires << " included at " << b.height);
		std::map<addr_t, Z> sum; std::set<addr_t> called;
		for(const auto& in : tx.inputs) {
			CHECK_MSG(in.solution < tx.solutions.size() && agreed(in.address, tx.solutions[in.solution], id, in.flags & txin_t::IS_EXEC), "input of " << id << " taken from " << in.address.to_string() << " without its owner's signature");
			take(in.address, in.contract, in.amount, "input");
			sum[in.contract] += zof(in.amount);
		}
		if(tx.deploy) called.insert(id);
		bool indirect = false;
		auto depends = [&](std::shared_ptr<const Contract> c) { if(auto e = std::dynamic_pointer_cast<const contract::Executable>(c)) if(!e->depends.empty()) indirect = true; };
		depends(tx.deploy);
		for(const auto& o : tx.execute) {
			const addr_t a = o->address == addr_t() ? addr_t(id) : o->address; called.insert(a);
			auto it = contracts.find(a);
			if(a != id) { CHECK_MSG(it != contracts.end(), "operation on a contract that does not exist: " << a.to_string()); depends(it->second); }
			if(auto e = std::dynamic_pointer_cast<const operation::Execute>(o)) if(e->user) {
				stat["user_calls"]++;
				CHECK_MSG(e->solution < tx.solutions.size() && agreed(*e->user, tx.solutions[e->solution], id, true), "call in " << id << " made as " << e->user->to_string() << " without its signature");
			}
			if(auto d = std::dynamic_pointer_cast<const operation::Deposit>(o)) stat["deposits"]++;
		}
		if(indirect) for(const auto& e : contracts) called.insert(e.first);
		for(const auto& in : r.inputs) {
			CHECK_MSG(called.count(in.address), "coins of " << in.address.to_string() << " spent by " << id << " which does not call it");
			sum[in.contract] += zof(in.amount); stat["exec_in"]++;
		}
		for(const auto& o : tx.outputs) { CHECK_MSG(o.amount, "empty output"); sum[o.contract] -= zof(o.amount); }
		for(const auto& o : r.outputs) { sum[o.contract] -= zof(o.amount); stat["exec_out"]++; }
		for(const auto& e : sum) if(e.second) {
			CHECK_MSG(e.second < 0 && called.count(e.first), "transaction " << id << " " << (e.second > 0 ? "destroys " : "creates ") << e.second << " of " << e.first.to_string() << ", which it does not mint");
			stat["mint"]++;
		}
	}
	// next block of the chain
	void apply(block_p bp) {
		const auto& b = *bp;
		const Block* prev = blocks.empty() ? nullptr : blocks.back().get();
		const auto start = bal; std::map<acct_t, Z> spent;
		if(prev) {
			CHECK_MSG(b.prev == prev->hash && b.height == prev->height + 1, "chain broken at height " << b.height);
			const std::shared_ptr<const BlockHeader> ph = blocks.back();
			CHECK_MSG(b.farmer_sig && b.farmer_sig->verify(b.get_farmer_key(), b.hash), "block " << b.height << " not signed by its farmer");
			CHECK_MSG(b.project_addr == prev->project_addr, "project address changed");
			Z fees = 0, cost = 0, size = 0;
			for(const auto& tx : b.tx_list) { CHECK_MSG(tx && tx->exec_result, "bad transaction"); fees += tx->exec_result->total_fee; cost += tx->exec_result->total_cost; size += tx->static_cost; }
			CHECK_MSG(fees == Z(b.tx_fees) && cost == Z(b.total_cost) && b.tx_count == b.tx_list.size() && size == Z(b.static_cost), "totals of block " << b.height);
			CHECK_MSG(size <= Z(params->max_block_size) && cost <= Z(params->max_block_cost), "block " << b.height << " too big");
			for(size_t i = 1; i < b.tx_list.size(); ++i) CHECK_MSG(b.tx_list[i]->fee_ratio <= b.tx_list[i - 1]->fee_ratio, "transaction order");
			// rewards
			const Z project = std::min(Z(fees / 2), Z(params->fixed_project_reward + params->project_ratio.value * b.tx_fees / params->project_ratio.inverse));
			Z reward = 0;
			if(b.height >= params->reward_activation) {
				const Z ded = calc_min_reward_deduction(params, prev->txfee_buffer);
				reward = Z(prev->base_reward) + (Z(params->min_reward) > ded ? Z(params->min_reward) - ded : Z(0)) + fees - std::max(Z(fees / 2), project);
			}
			CHECK_MSG(Z(b.reward_amount) == (b.reward_addr ? reward : Z(0)), "reward of block " << b.height << " is " << b.reward_amount << " want " << (b.reward_addr ? reward : Z(0)));
			CHECK_MSG(b.txfee_buffer == calc_new_txfee_buffer(params, ph), "fee buffer of block " << b.height);
			// every vdf_reward_interval blocks the timelord with the most proofs since the last time is paid (a tie may go either way)
			std::map<addr_t, uint32_t> count; uint32_t best = 0;
			for(size_t i = 0; i < params->vdf_reward_interval && i < blocks.size(); ++i) for(const auto& a : blocks[blocks.size() - 1 - i]->vdf_reward_addr) best = std::max(best, ++count[a]);
			const bool due = b.height % params->vdf_reward_interval == 0 && best;
			CHECK_MSG(bool(b.vdf_reward_payout) == due && (!due || count[*b.vdf_reward_payout] == best), "timelord reward of block " << b.height << " goes to " << (b.vdf_reward_payout ? b.vdf_reward_payout->to_string() : "nobody") << " who made " << (due && b.vdf_reward_payout ? count[*b.vdf_reward_payout] : 0) << " of " << best);
			// coins
			auto give = [&](const addr_t& a, uint64_t amount, tx_type_e::enum_t type) { txio_t o; o.address = a; o.amount = amount; move(b.hash, b.height, type, o, true); };
			if(b.vdf_reward_payout) { give(*b.vdf_reward_payout, params->vdf_reward, tx_type_e::VDF_REWARD); stat["vdf_reward"]++; }
			if(b.reward_addr && b.reward_amount) { give(*b.reward_addr, b.reward_amount, tx_type_e::REWARD); stat["reward"]++; }
			if(const auto pr = project.convert_to<uint64_t>()) { give(b.project_addr, pr, tx_type_e::PROJECT_REWARD); stat["project"]++; }
		}
		for(const auto& tx : b.tx_list) if(prev) check_tx(*tx, b, start, spent);
		for(const auto& tx : b.tx_list) {
			const bool ok = !tx->exec_result || !tx->exec_result->did_fail;
			if(ok) {
				for(const auto& o : tx->outputs) move(tx->id, b.height, tx_type_e::RECEIVE, o, true);
				if(tx->exec_result) for(const auto& o : tx->exec_result->outputs) move(tx->id, b.height, tx_type_e::RECEIVE, o, true);
			}
		}
		for(const auto& tx : b.tx_list) {
			if(tx->exec_result && tx->sender) { txio_t f; f.address = *tx->sender; f.amount = tx->exec_result->total_fee; move(tx->id, b.height, tx_type_e::TXFEE, f, false); }
			if(!tx->exec_result || !tx->exec_result->did_fail) {
				for(const auto& in : tx->inputs) move(tx->id, b.height, tx_type_e::SPEND, in, false);
				if(tx->exec_result) for(const auto& in : tx->exec_result->inputs) move(tx->id, b.height, tx_type_e::SPEND, in, false);
				if(tx->deploy) contracts[tx->id] = tx->deploy;
			}
			txs[tx->id] = {tx, b.height, b.hash};
			stat["tx"]++;
		}
		for(const auto& e : bal) CHECK_MSG(e.second >= 0, "negative balance at height " << b.height << ": " << e.first.first.to_string() << " " << e.first.second.to_string() << " " << e.second);
		blocks.push_back(bp);
	}
	// brings the ledger to the node's current chain (which must extend what was applied so far); false if it does not
	bool follow(const Node& n) {
		auto a = n.api(); const auto top = a.get_height();
		if(!blocks.empty()) { const auto h = blocks.back()->height; if(h > top || *a.get_block_hash(h) != blocks.back()->hash) return false; }
		for(uint32_t h = blocks.empty() ? 0 : blocks.back()->height + 1; h <= top; ++h) { auto b = a.get_block_at(h); CHECK_MSG(b, "block " << h << " of the main chain not available"); apply(b); }
		return true;
	}
	std::set<addr_t> currencies() const { std::set<addr_t> out{addr_t()}; for(const auto& e : bal) out.insert(e.first.second); return out; }
	void compare_supply(const Node& n) const {
		auto a = n.api();
		for(const auto& e : supply) CHECK_MSG(zof(a.get_total_supply(e.first)) == e.second - get(addr_t(), e.first), "total supply of " << e.first.to_string() << " is " << a.get_total_supply(e.first).str(10) << " but all balances but the zero address's add up to " << e.second - get(addr_t(), e.first) << " at height " << a.get_height() << last_block());
	}
	str last_block() const { std::ostringstream out; const auto& b = *blocks.back(); out << " fees " << b.tx_fees << " reward " << b.reward_amount; for(const auto& tx : b.tx_list) { auto t = vnx::clone(tx); t->deploy = nullptr; t->solutions.clear(); out << "\n" << vnx::to_string(t) << (tx->deploy ? tx->deploy->get_type_name() : str()); } return out.str(); }
	// everything the node says about balances and transactions against the ledger
	void compare(const Node& n) const {
		auto a = n.api();
		std::set<addr_t> addrs;
		for(const auto& e : bal) {
			addrs.insert(e.first.first);
			const Z got = zof(a.get_balance(e.first.first, e.first.second));
			CHECK_MSG(got == e.second, "balance of " << e.first.first.to_string() << " in " << e.first.second.to_string() << " is " << got << " want " << e.second << " at height " << a.get_height());
		}
		compare_supply(n);
		for(const auto& ad : addrs) {
			std::map<addr_t, Z> want, got;
			for(auto it = bal.lower_bound({ad, addr_t()}); it != bal.end() && it->first.first == ad; ++it) if(it->second) want[it->first.second] = it->second;
			for(const auto& e : a.get_balances(ad, {}, -1)) if(e.second) got[e.first] = zof(e.second);
			CHECK_MSG(got == want, "balances of " << ad.to_string());
		}
		{ std::vector<addr_t> list(addrs.begin(), addrs.end()); for(const auto& cur : currencies()) { Z want = 0; for(const auto& e : bal) if(e.first.second == cur) want += e.second; CHECK_MSG(zof(a.get_total_balance(list, cur)) == want, "total balance in " << cur.to_string()); } }
		for(const auto& e : txs) {
			const auto h = a.get_tx_height(e.first);
			CHECK_MSG(h && *h == e.second.height, "height of transaction " << e.first << " is " << (h ? int(*h) : -1) << " want " << e.second.height);
			const auto tx = a.get_transaction(e.first, false);
			CHECK_MSG(tx && tx->content_hash == e.second.tx->content_hash && tx->calc_hash(true) == tx->content_hash, "transaction " << e.first << " not returned as included");
			const auto info = a.get_tx_info(e.first);
			CHECK_MSG(info && info->id == e.first && info->height && *info->height == e.second.height && info->block && *info->block == e.second.block, "info of transaction " << e.first);
			if(const auto& r = tx->exec_result) {
				CHECK_MSG(info->fee == r->total_fee && info->cost == r->total_cost && info->did_fail == r->did_fail, "fee, cost or outcome of " << e.first);
				std::map<addr_t, Z> in, out, gi, go;
				for(const auto& x : tx->inputs) in[x.contract] += zof(x.amount); for(const auto& x : r->inputs) in[x.contract] += zof(x.amount);
				for(const auto& x : tx->outputs) out[x.contract] += zof(x.amount); for(const auto& x : r->outputs) out[x.contract] += zof(x.amount);
				for(const auto& x : info->input_amounts) gi[x.first] = zof(x.second); for(const auto& x : info->output_amounts) go[x.first] = zof(x.second);
				CHECK_MSG(gi == in && go == out, "amounts of " << e.first);
			}
		}
		for(const auto& b : blocks) {
			std::vector<hash_t> want; for(const auto& tx : b->tx_list) want.push_back(tx->id);
			CHECK_MSG(a.get_tx_ids_at(b->height) == want, "transactions at height " << b->height);
			const auto bb = a.get_block(b->hash), bh = a.get_block_at(b->height); const auto hd = a.get_header(b->hash), hh = a.get_header_at(b->height);
			CHECK_MSG(bb && bh && hd && hh && bb->content_hash == b->content_hash && bh->content_hash == b->content_hash && hd->content_hash == b->content_hash && hh->content_hash == b->content_hash && bb->hash == b->hash && hd->hash == b->hash, "block at height " << b->height);
			CHECK_MSG(bb->calc_hash(params) == b->hash && bb->tx_list.size() == b->tx_list.size(), "content of block " << b->height);
			for(size_t i = 0; i < b->tx_list.size(); ++i) CHECK_MSG(bb->tx_list[i]->content_hash == b->tx_list[i]->content_hash && bb->tx_list[i]->calc_hash(true) == bb->tx_list[i]->content_hash, "transaction " << i << " of block " << b->height);
		}
		for(const auto& e : contracts) { const auto got = a.get_contract(e.first); CHECK_MSG(got && got->calc_hash(true, 0) == e.second->calc_hash(true, 0), "contract " << e.first.to_string()); }
		// history of every address
		typedef std::tuple<uint32_t, str, int, str, str, str> row_t;
		for(const auto& ad : addrs) {
			std::multiset<row_t> want, got;
			for(const auto& x : log) if(x.address == ad) want.insert(row_t(x.height, x.txid.to_string(), int(x.type), x.contract.to_string(), zs(x.amount), x.memo ? *x.memo : str("-")));
			query_filter_t f; f.white_list = false;
			for(const auto& x : a.get_history({ad}, f)) got.insert(row_t(x.height, x.txid.to_string(), int(x.type), x.contract.to_string(), zs(zof(x.amount)), x.memo ? *x.memo : str("-")));
			CHECK_MSG(got == want, "history of " << ad.to_string() << " has " << got.size() << " entries, want " << want.size());
		}
		// farmers
		std::map<str, std::pair<uint32_t, Z>> farm;
		for(const auto& b : blocks) if(b->height) { auto& e = farm[b->get_farmer_key().to_string()]; e.first++; e.second += b->reward_addr ? Z(b->reward_amount) : Z(0); }
		for(const auto& k : the_world().farmer) {
			const auto s = a.get_farmed_block_summary({k.pk}, 0); const auto& want = farm[k.pk.to_string()];
			CHECK_MSG(s.num_blocks == want.first && Z(s.total_rewards) == want.second, "farmed blocks " << s.num_blocks << " want " << want.first << ", rewards " << s.total_rewards << " want " << want.second);
		}
		std::map<str, uint32_t> rank; for(const auto& e : a.get_farmer_ranking(-1)) if(e.second) rank[e.first.to_string()] += e.second;
		for(const auto& e : farm) CHECK_MSG(rank[e.first] == e.second.first, "farmer ranking: " << rank[e.first] << " want " << e.second.first);
	}
};

} // sim

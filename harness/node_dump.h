#pragma once
// Everything a node answers to questions about the state of its chain, as text.
#include "ledger.h"
#include <mmx/exec_entry_t.hxx>
#include <mmx/offer_data_t.hxx>
#include <mmx/trade_entry_t.hxx>
#include <mmx/swap_info_t.hxx>
#include <mmx/swap_entry_t.hxx>
#include <mmx/swap_user_info_t.hxx>
#include <mmx/plot_nft_info_t.hxx>
#include <mmx/balance_t.hxx>
#include <mmx/vm/var_t.h>

namespace sim {

typedef std::map<str, str> dump_t;

template<typename T> str T_(const T& v) { return vnx::to_string(v); }
inline str T_(const vm::varptr_t& v) { return v.get() ? vm::to_string(v.get()) : str("(none)"); }
inline str T_(const uint128& v) { return v.str(10); }
inline str T_(const addr_t& v) { return v.to_string(); }
inline str T_(const hash_t& v) { return v.to_string(); }
template<typename T> str list_(const std::vector<T>& v) { str o; for(const auto& x : v) o += T_(x) + "\n"; return o; }
template<typename F> str try_(F fn) { try { return fn(); } catch(const pbt::failure&) { throw; } catch(const std::exception& ex) { return str("exception"); } }

struct dump_keys { std::set<addr_t> addrs, contracts, currencies; std::set<hash_t> txs; std::set<str> memos; };

inline dump_keys keys_of(const std::vector<block_p>& blocks) {
	dump_keys k; const auto& w = the_world(); k.currencies.insert(addr_t()); k.addrs.insert(addr_t());
	for(const auto* v : {&w.user, &w.farmer, &w.timelord}) for(const auto& x : *v) k.addrs.insert(x.addr);
	for(const auto& b : blocks) for(const auto& tx : b->tx_list) {
		k.txs.insert(tx->id);
		for(const auto& o : tx->get_outputs()) { k.addrs.insert(o.address); k.currencies.insert(o.contract); if(o.memo) k.memos.insert(*o.memo); }
		for(const auto& o : tx->get_inputs()) { k.addrs.insert(o.address); k.currencies.insert(o.contract); }
		if(tx->deploy) { k.contracts.insert(tx->id); k.addrs.insert(tx->id); }
		for(const auto& o : tx->execute) if(o) k.contracts.insert(o->address);
	}
	return k;
}
inline void merge(dump_keys& a, const dump_keys& b) { a.addrs.insert(b.addrs.begin(), b.addrs.end()); a.contracts.insert(b.contracts.begin(), b.contracts.end()); a.currencies.insert(b.currencies.begin(), b.currencies.end()); a.txs.insert(b.txs.begin(), b.txs.end()); a.memos.insert(b.memos.begin(), b.memos.end()); }

// storage of one contract at a height: every field, followed to what it refers to
inline str storage_at(NodeClient a, const addr_t& c, uint32_t h) { str o; for(const auto& e : a.dump_storage(c, h)) o += std::to_string(e.first) + "=" + T_(e.second) + "\n"; return o; }

inline dump_t dump_node(const Node& n, const dump_keys& k) {
	auto a = n.api(); dump_t d;
	const auto top = a.get_height();
	d["height"] = std::to_string(top);
	for(uint32_t h = 0; h <= top; ++h) {
		const auto b = a.get_block_at(h); const auto x = a.get_header_at(h);
		d["block/" + std::to_string(h)] = (b ? b->content_hash.to_string() + " " + a.get_block_hash(h)->to_string() : str("missing")) + (x && b && x->content_hash == b->content_hash && a.get_block(b->hash) && a.get_header(b->hash) ? " ok" : " header differs");
		{ auto e = a.get_block_hash_ex(h); d["block_hash_ex/" + std::to_string(h)] = e ? e->first.to_string() + e->second.to_string() : str("none"); }
		d["tx_ids_at/" + std::to_string(h)] = list_(a.get_tx_ids_at(h));
	}
	d["block_above"] = a.get_block_at(top + 1) || a.get_block_hash(top + 1) || !a.get_tx_ids_at(top + 1).empty() ? "something" : "nothing";
	d["tx_ids"] = list_(a.get_tx_ids(uint32_t(-1)));
	d["tx_ids_since"] = list_(a.get_tx_ids_since(top / 2));
	const std::vector<addr_t> all(k.addrs.begin(), k.addrs.end());
	query_filter_t f;
	for(const auto& id : k.txs) {
		const auto s = id.to_string(); const auto h = a.get_tx_height(id);
		d["tx_height/" + s] = h ? std::to_string(*h) : "none";
		const auto tx = a.get_transaction(id, false);
		d["tx/" + s] = tx ? tx->calc_hash(true).to_string() + " " + tx->content_hash.to_string() : str("none");
		if(h) d["tx_info/" + s] = T_(*a.get_tx_info(id));
	}
	for(const auto& x : k.addrs) {
		const auto s = x.to_string();
		for(const auto& cur : k.currencies) { const auto v = a.get_balance(x, cur); if(v) d["balance/" + s + "/" + cur.to_string()] = T_(v); }
		{ str o; for(const auto& e : a.get_balances(x, {}, -1)) o += T_(e.first) + " " + T_(e.second) + "\n"; d["balances/" + s] = o; }
		{ str o; for(const auto& e : a.get_history({x}, f)) o += T_(e) + "\n"; d["history/" + s] = o; }
		for(const auto& m : k.memos) { str o; for(const auto& e : a.get_history_memo({x}, m, f)) o += T_(e) + "\n"; if(o.size()) d["memo/" + s + "/" + m] = o; }
		d["contracts_by/" + s] = list_(a.get_contracts_by({x}, nullptr));
		d["owned/" + s] = list_(a.get_contracts_owned_by({x}, nullptr));
		d["offers_by/" + s] = try_([&] { return list_(a.get_offers_by({x}, false)); });
		d["open_offers_by/" + s] = try_([&] { return list_(a.get_offers_by({x}, true)); });
		d["swap_liquidity/" + s] = try_([&] { str o; for(const auto& e : a.get_swap_liquidity_by({x})) if(e.second[0].second || e.second[1].second) o += T_(e.first) + " " + T_(e.second[0].first) + " " + T_(e.second[0].second) + " " + T_(e.second[1].first) + " " + T_(e.second[1].second) + "\n"; return o; });
	}
	for(const auto& cur : k.currencies) d["supply/" + cur.to_string()] = T_(a.get_total_supply(cur));
	for(const auto& x : k.contracts) {
		const auto s = x.to_string();
		const auto c = a.get_contract(x);
		d["contract/" + s] = c ? T_(c->calc_hash(true, 0)) : str("none");
		d["exec_history/" + s] = list_(a.get_exec_history(x, -1, false)) + "recent:\n" + list_(a.get_exec_history(x, 3, true));
		for(uint32_t h = 0; h <= top; h += 1 + top / 8) { const auto o = storage_at(a, x, h); if(o.size()) d["storage/" + s + "/" + std::to_string(h)] = o; }
		{ const auto o = storage_at(a, x, -1); if(o.size()) d["storage/" + s + "/now"] = o; }
		d["fields/" + s] = try_([&] { str o; for(const auto& e : a.read_storage(x, -1)) { o += e.first + "=" + T_(e.second); if(e.second.get() && e.second->type == vm::TYPE_REF) for(const auto& m : a.read_storage_map(x, vm::to_ref(e.second), -1)) o += " {" + T_(m.first) + ":" + T_(m.second) + "}"; if(e.second.get() && e.second->type == vm::TYPE_REF) try { for(const auto& m : a.read_storage_array(x, vm::to_ref(e.second), -1)) o += " [" + T_(m) + "]"; } catch(...) { } o += "\n"; } return o; });
		d["balances_of/" + s] = try_([&] { str o; for(const auto& e : a.get_contract_balances(x, {}, -1)) o += T_(e.first) + T_(e.second) + "\n"; return o; });
		d["plot_nft/" + s] = try_([&] { auto i = a.get_plot_nft_info(x); return i ? T_(*i) : str("none"); });
		d["plot_nft_target/" + s] = try_([&] { return T_(a.get_plot_nft_target(x, nullptr)); });
		d["offer/" + s] = try_([&] { return T_(a.get_offer(x)); });
		d["swap/" + s] = try_([&] { return T_(a.get_swap_info(x)); });
		d["swap_history/" + s] = try_([&] { return list_(a.get_swap_history(x, -1)); });
		for(const auto& u : the_world().user) d["swap_user/" + s + "/" + u.addr.to_string()] = try_([&] { return T_(a.get_swap_user_info(x, u.addr)); });
	}
	d["offers"] = try_([&] { return list_(a.get_offers(0, false)); }); d["open_offers"] = try_([&] { return list_(a.get_offers(0, true)); });
	d["recent_offers"] = try_([&] { return list_(a.get_recent_offers(5, true)); });
	d["trades"] = try_([&] { return list_(a.get_trade_history(-1, 0)); });
	d["swaps"] = try_([&] { std::set<str> o; for(const auto& e : a.get_swaps(0, nullptr, nullptr, -1)) o.insert(T_(e)); str r; for(auto& e : o) r += e + "\n"; return r; });
	for(const auto& cur : k.currencies) {
		const auto s = cur.to_string();
		d["offers_for/" + s] = try_([&] { return list_(a.get_recent_offers_for(cur, nullptr, 0, 100, false)) + "ask:\n" + list_(a.get_recent_offers_for(nullptr, cur, 0, 100, false)); });
		d["trades_for/" + s] = try_([&] { return list_(a.get_trade_history_for(cur, nullptr, 100, 0)) + "ask:\n" + list_(a.get_trade_history_for(nullptr, cur, 100, 0)); });
		d["swaps_for/" + s] = try_([&] { std::set<str> o; for(const auto& e : a.get_swaps(0, cur, nullptr, 100)) o.insert(T_(e)); str r; for(auto& e : o) r += e + "\n"; return r; });
	}
	std::vector<pubkey_t> fk; for(const auto& x : the_world().farmer) fk.push_back(x.pk);
	for(const auto& x : fk) { str o; for(const auto& b : a.get_farmed_blocks({x}, false, 0, 1000)) o += b ? b->hash.to_string() + "\n" : str("missing\n"); d["farmed/" + x.to_string()] = o + T_(a.get_farmed_block_summary({x}, 0)); }
	{ std::map<str, uint32_t> m; for(const auto& e : a.get_farmer_ranking(-1)) m[e.first.to_string()] += e.second; str o; for(const auto& e : m) o += e.first + " " + std::to_string(e.second) + "\n"; d["ranking"] = o; }
	return d;
}
inline str first_difference(const dump_t& a, const dump_t& b) {
	for(const auto& e : a) { auto it = b.find(e.first); const str o = it != b.end() ? it->second : str("(nothing)"); if(o != e.second) return e.first + ":\n--- " + e.second.substr(0, 1500) + "\n+++ " + o.substr(0, 1500); }
	for(const auto& e : b) if(!a.count(e.first)) return e.first + ":\n--- (nothing)\n+++ " + e.second.substr(0, 1500);
	return str();
}

} // sim

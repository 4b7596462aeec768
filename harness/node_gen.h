#pragma once
// Random transactions for the simulated network: transfers, tokens, shared ownership, contracts of every kind shipped with the
// code plus one that does everything, and the many ways in which a transaction can fail.
#include "ledger.h"

namespace sim {

static const char* BANK = R"(
var owner; var data = []; var map = {}; var count = 0; var last;
interface peer;
function init(owner_) { owner = bech32(owner_); }
function deposit() public payable { count += 1; last = this.deposit.amount; }
function plain() public { count += 1; }
function pay(to, amount, currency) public { send(bech32(to), uint(amount), bech32(currency), "bank"); }
function pay_two(to, amount, currency) public { send(bech32(to), uint(amount), bech32(currency)); send(bech32(to), uint(amount), bech32(currency), "again"); }
function put(key, value) public { map[key] = value; last = key; }
function unset(key) public { erase(map, key); }
function add(value) public { push(data, value); count += 1; }
function drop() public { pop(data); count = count - 1; }
function nest(key, value) public { map[key] = {"a": value, "b": [value, key]}; }
function burn(n) public { for(var i = 0; i < n; ++i) { count += i; } }
function grow(n) public { for(var i = 0; i < n; ++i) { push(data, i); } }
function fail_late(n) public { count += n; map["x"] = n; assert(false, "as asked", 7); }
function need(key) public { assert(map[key] != null, "missing", 9); count += 10; }
function guarded(to, amount, currency) public { assert(this.user == owner, "not owner", 1); send(bech32(to), uint(amount), bech32(currency)); }
function make(to, amount) public { mint(bech32(to), uint(amount), "made"); }
function forward(to, amount, currency) public { count += 1; peer.pay(to, amount, currency); last = this.user; }
function forward_set(key, value) public { peer.put(key, value); map[key] = count; }
function forward_fail(n) public { count += 1; peer.fail_late(n); }
function at_height() public { last = this.height; push(data, this.user); }
)";

struct plan_t { std::vector<key> keys; bool multi = false; };		// who signs for an address

struct Gen {
	Net& net; const Ledger& led;
	struct con { str kind; addr_t addr; size_t owner = 0; addr_t a, b; uint256_t price; };
	std::vector<con> cons; vnx::optional<addr_t> bank; std::shared_ptr<const contract::Binary> bank_code;
	std::map<hash_t, str> kind_of;		// label of every transaction made
	u64 nonce = 1;
	bool wild = true;					// also make transactions that fail
	Gen(Net& net, const Ledger& led) : net(net), led(led) {}

	const key& user(size_t i) const { return net.w.user[i]; }
	uint32_t next_height() const { return led.blocks.size() ? led.blocks.back()->height + 1 : 1; }
	bool live(const addr_t& a) const { return led.contracts.count(a); }
	std::vector<const con*> live_cons(const str& kind) const { std::vector<const con*> out; for(const auto& x : cons) if((kind.empty() || x.kind == kind) && live(x.addr)) out.push_back(&x); return out; }
	bool focus = false; size_t focus_user = 0; u64 focus_con = 0;		// all of a block's transactions around one user and one contract
	const con* find(Src& s, const str& kind) const { auto v = live_cons(kind); if(focus && v.size() && s.chance(85)) return v[focus_con % v.size()]; return v.size() ? s.pick(v) : nullptr; }
	// coins of an owner, mostly within its means
	uint128 amount(Src& s, const addr_t& a, const addr_t& cur) const {
		const Z have = led.get(a, cur);
		if(have == 0) return uint128(s.range(1, 100));
		if(wild && s.chance(4)) { Z z = have + s.range(0, 3); return uint128(z.str()); }
		if(s.chance(3)) return uint128(have.str());
		if(focus && s.chance(60)) { Z z = have / Z(s.range(1, 3)); if(z > 0) return uint128(z.str()); }
		const u64 n = have > Z(1) << 62 ? u64(1) << 62 : have.convert_to<u64>();
		return uint128(1 + s.range(0, std::min<u64>(n / s.of({2, 5, 10, 1000}), 1000000000ull)));
	}
	std::vector<addr_t> held(const addr_t& a, bool tokens_only = false) const { std::vector<addr_t> out; for(auto it = led.bal.lower_bound({a, addr_t()}); it != led.bal.end() && it->first.first == a; ++it) if(it->second > 0 && !(tokens_only && it->first.second == addr_t())) out.push_back(it->first.second); return out; }
	addr_t currency(Src& s, const addr_t& a) const { auto v = held(a); if(v.empty() || s.chance(50)) return addr_t(); return s.pick(v); }

	struct builder { std::shared_ptr<Transaction> tx = Transaction::create(); std::vector<std::pair<addr_t, plan_t>> plans; };
	plan_t plan_of(const addr_t& a) const {
		for(const auto& u : net.w.user) if(u.addr == a) return {{u}, false};
		for(const auto& u : net.w.farmer) if(u.addr == a) return {{u}, false};
		for(const auto& u : net.w.timelord) if(u.addr == a) return {{u}, false};
		auto it = led.contracts.find(a);
		if(it != led.contracts.end()) {
			if(auto c = std::dynamic_pointer_cast<const contract::PubKey>(it->second)) return plan_of(c->address);
			if(auto c = std::dynamic_pointer_cast<const contract::MultiSig>(it->second)) { plan_t p; p.multi = c->num_required != 1; for(const auto& o : c->owners) for(const auto& u : net.w.user) if(u.addr == o && p.keys.size() < c->num_required) p.keys.push_back(u); return p; }
		}
		return {};
	}
	void input(builder& b, const addr_t& a, const addr_t& cur, const uint128& n, bool exec = false) { txin_t in; in.address = a; in.contract = cur; in.amount = n; if(exec) in.flags |= txin_t::IS_EXEC; b.tx->inputs.push_back(in); }
	void output(builder& b, const addr_t& a, const addr_t& cur, const uint128& n, const vnx::optional<str>& memo = nullptr) { txout_t o; o.address = a; o.contract = cur; o.amount = n; o.memo = memo; b.tx->outputs.push_back(o); }
	void call(builder& b, const addr_t& a, const str& method, const std::vector<vnx::Variant>& args, vnx::optional<addr_t> user = nullptr) { auto o = operation::Execute::create(); o->address = a; o->method = method; o->args = args; o->user = user; b.tx->execute.push_back(o); }
	void deposit(builder& b, const addr_t& a, const addr_t& cur, const uint128& n, const str& method = "deposit", const std::vector<vnx::Variant>& args = {}, vnx::optional<addr_t> user = nullptr) { auto o = operation::Deposit::create(); o->address = a; o->method = method; o->args = args; o->user = user; o->currency = cur; o->amount = n; b.tx->execute.push_back(o); }
	static vnx::Variant V(const addr_t& a) { return vnx::Variant(a.to_string()); }
	static vnx::Variant V(const uint128& a) { return vnx::Variant(a.str(10)); }
	static vnx::Variant V(u64 a) { return vnx::Variant(a); }
	static vnx::Variant V(const str& a) { return vnx::Variant(a); }
	static vnx::Variant V(std::nullptr_t) { return vnx::Variant(); }
	addr_t deploy(builder& b, const str& kind, size_t owner, const addr_t& x = addr_t(), const addr_t& y = addr_t(), const uint256_t& price = 0) { pending_con = con{kind, addr_t(), owner, x, y, price}; return addr_t(); }
	std::optional<con> pending_con;

	addr_t any_addr(Src& s) const {
		const auto k = s.range(0, 9);
		if(k < 6) return s.pick(net.w.user).addr;
		if(k == 6) return s.pick(net.w.farmer).addr;
		if(k == 7) return addr_t(hash_t("nobody" + std::to_string(s.range(0, 3))));
		auto v = live_cons(""); return v.size() ? s.pick(v)->addr : addr_t();
	}
	vnx::optional<str> memo(Src& s) const { if(s.chance(60)) return nullptr; return s.of<str>({"", "a", "memo", "invoice 17", str(64, 'm'), "m" + std::to_string(s.range(0, 3))}); }

	// signs with everybody's consent (or without)
	tx_p seal(Src& s, builder& b, const key& sender, Ctx& c) {
		auto& tx = *b.tx;
		tx.network = net.params->network; tx.nonce = nonce++; tx.sender = sender.addr;
		tx.version = get_transaction_version(net.params, next_height());
		if(wild && s.chance(1)) tx.version ^= 1;
		tx.fee_ratio = s.pick_weighted<uint32_t>({{4, 1024}, {3, 2048}, {2, 3072}, {2, 5120}, {2, 10240}, {1, uint32_t(1024 + s.range(0, 20000))}});
		if(fixed_ratio) tx.fee_ratio = fixed_ratio;
		if(wild && s.chance(3)) tx.expires = uint32_t(next_height() + s.range(0, 3)) - 1;
		int defect = 0; if(wild && s.chance(8)) defect = int(s.range(1, 5));
		if(defect) c.count("signature defect");
		auto build = [&]() {
			tx.solutions.clear(); tx.finalize();
			std::map<str, uint16_t> index;
			const hash_t msg = defect == 1 ? hash_t("other") : hash_t(tx.id);
			auto single = [&](const key& k, const hash_t& m) { auto x = solution::PubKey::create(); x->pubkey = k.pk; x->signature = signature_t::sign(k.sk, m); return x; };
			auto add = [&](const plan_t& p, bool main) -> uint16_t {
				if(p.keys.empty()) return txin_t::NO_SOLUTION;
				str id; for(const auto& k : p.keys) id += k.addr.to_string(); id += p.multi;
				if(index.count(id)) return index[id];
				std::shared_ptr<Solution> sol;
				if(!p.multi) sol = single(defect == 2 && !main ? net.w.user[(&p.keys[0] - &p.keys[0]) + 3] : p.keys[0], main && defect != 5 ? hash_t(tx.id) : msg);
				else { auto m = solution::MultiSig::create(); m->num_required = uint16_t(p.keys.size()); size_t left = p.keys.size() - (defect == 3); for(const auto& k : p.keys) if(left) { m->solutions[k.addr] = single(k, msg); left--; } sol = m; }
				tx.solutions.push_back(sol);
				return index[id] = uint16_t(tx.solutions.size() - 1);
			};
			add({{sender}, false}, true);
			for(auto& in : tx.inputs) in.solution = defect == 4 ? txin_t::NO_SOLUTION : add(plan_of(in.address), false);
			for(auto& o : tx.execute) { auto e = std::dynamic_pointer_cast<const operation::Execute>(o); auto x = vnx::clone(o); if(e && e->user) x->solution = defect == 4 ? Operation::NO_SOLUTION : add(plan_of(*e->user), false); o = x; }
			tx.static_cost = tx.calc_cost(net.params); tx.content_hash = tx.calc_hash(true);
		};
		tx.max_fee_amount = 1u << 30; build();
		const u64 fee = tx.static_cost * tx.fee_ratio / 1024; u64 lim = 0;
		const auto mode = wild ? s.pick_weighted<int>({{80, 0}, {4, 1}, {10, 2}, {4, 3}, {1, 4}, {3, 5}}) : 0;
		switch(mode) {
			case 0: lim = 200000000; break;
			case 1: lim = fee; break;
			case 2: lim = fee + s.range(1, 60000); break;
			case 3: lim = fee + s.range(0, 3000); break;
			case 4: lim = fee - 1; break;
			default: lim = fee + s.range(0, 400); break;
		}
		if(lim != tx.max_fee_amount) { tx.max_fee_amount = uint32_t(lim); build(); }
		tx_p out = b.tx;
		if(pending_con) { auto k = *pending_con; k.addr = tx.id; cons.push_back(k); pending_con.reset(); }
		return out;
	}
	std::shared_ptr<contract::Executable> exec(const addr_t& binary, const std::vector<vnx::Variant>& args, const str& name = "Thing", const str& symbol = "THG", int dec = 0) { auto e = contract::Executable::create(); e->name = name; e->symbol = symbol; e->decimals = dec; e->binary = binary; e->init_args = args; return e; }
	void pay_in(builder& b, const addr_t& from, const addr_t& cur, const uint128& n) { input(b, from, cur, n); }

	// a batch for the next block
	std::vector<tx_p> batch(Src& s, Ctx& c, u64 n) {
		focus = s.chance(40); focus_user = s.index(net.w.user.size()); focus_con = s.range(0, 50);
		std::vector<tx_p> out; for(u64 i = 0; i < n; ++i) out.push_back(make(s, c));
		focus = false;
		if(n && live_cons("bank").size() && s.chance(30)) contest(s, c, out);
		return out;
	}
	// several transactions that each are fine but not together (one balance spent more than once), and others that
	// succeed or fail depending on which of them were included
	void contest(Src& s, Ctx& c, std::vector<tx_p>& out) {
		const auto x = find(s, "bank"); const auto& me = s.pick(net.w.user); const auto cur = currency(s, me.addr); const Z have = led.get(me.addr, cur);
		if(have < 10) return;
		c.label("contest");
		const str k = "c" + std::to_string(s.range(0, 1000)); uint32_t ratio = uint32_t(s.range(1024, 20000));
		const auto n = s.range(2, 4);
		for(u64 i = 0; i < n; ++i) {
			builder b; pending_con.reset();
			const Z part = cur == addr_t() ? have * Z(s.range(30, 95)) / 100 : s.chance(60) ? have : have * Z(s.range(30, 99)) / 100;
			input(b, me.addr, cur, uint128(part.str()));
			if(s.chance(80)) deposit(b, x->addr, cur, uint128(part.str()), "deposit"); else output(b, s.pick(net.w.user).addr, cur, uint128(part.str()));
			if(s.chance(90)) call(b, x->addr, "put", {V(k + std::to_string(i)), V(i)});
			fixed_ratio = ratio; out.push_back(seal(s, b, cur == addr_t() || s.flip() ? s.pick(net.w.user) : me, c)); kind_of[out.back()->id] = "contest";
			if(s.chance(70)) ratio -= std::min<uint32_t>(ratio - 1024, uint32_t(s.range(0, 300)));
		}
		for(u64 i = 0; i < n; ++i) if(s.chance(80)) {
			builder b; pending_con.reset();
			call(b, x->addr, "need", {V(k + std::to_string(i))});
			fixed_ratio = s.chance(70) ? ratio - std::min<uint32_t>(ratio - 1024, uint32_t(s.range(0, 300))) : uint32_t(s.range(1024, 20000));
			out.push_back(seal(s, b, s.pick(net.w.user), c)); kind_of[out.back()->id] = "contest_need";
		}
		fixed_ratio = 0;
	}
	uint32_t fixed_ratio = 0;
	tx_p make(Src& s, Ctx& c) {
		builder b; const size_t ui = focus && s.chance(75) ? focus_user : s.index(net.w.user.size()); const key& me = user(ui); const auto& w = net.w; const auto mine = me.addr;
		pending_con.reset();
		str kind = s.pick_weighted<str>({{22, "transfer"}, {6, "multi_transfer"}, {4, "token"}, {6, "mint"}, {3, "pubkey"}, {3, "multisig"}, {6, "spend_exec"}, {2, "time_lock"}, {2, "escrow"}, {5, "locked"}, {5, "offer"}, {9, "offer_use"}, {5, "swap"}, {10, "swap_use"}, {3, "plot_nft"}, {4, "plot_nft_use"}, {2, "nft"}, {3, "virtual_plot"}, {6, "bank"}, {22, "bank_use"}, {2, "data"}, {2, "stray"}});
		if(focus && s.chance(80)) kind = s.pick_weighted<str>({{6, "bank_use"}, {2, "transfer"}, {2, "swap_use"}, {2, "offer_use"}, {1, "locked"}, {1, "mint"}});
		if(!bank && s.chance(40)) kind = "bank_code";
		if(bank && live(*bank) && s.chance(8)) kind = "bank";
		key sender = me;
		if(kind == "bank_code") {
			if(!bank_code) { compile_flags_t f; auto x = vm::compile(BANK, f); auto y = vnx::clone(x); y->name = "bank"; y->source = ""; bank_code = y; }
			b.tx->deploy = bank_code;
			auto tx = seal(s, b, user(0), c); bank = tx->id; kind_of[tx->id] = kind; c.label(kind); return tx;
		}
		if(kind == "mint" && live_cons("token").empty()) kind = "token";
		if(kind == "spend_exec" && live_cons("wallet").empty()) kind = s.flip() ? "multisig" : "pubkey";
		if(kind == "locked" && live_cons("locked").empty()) kind = s.flip() ? "time_lock" : "escrow";
		if(kind == "offer_use" && live_cons("offer").empty()) kind = "offer";
		if((kind == "swap" || kind == "offer") && live_cons("token").empty()) kind = "token";
		if(kind == "swap_use" && live_cons("swap").empty()) kind = "swap";
		if(kind == "swap" && live_cons("token").empty()) kind = "token";
		if(kind == "plot_nft_use" && live_cons("plot_nft").empty()) kind = "plot_nft";
		if((kind == "bank" || kind == "bank_use") && !(bank && live(*bank))) kind = "transfer";
		if(kind == "bank_use" && live_cons("bank").empty()) kind = "bank";

		if(kind == "transfer") {
			const auto cur = currency(s, mine); const auto n = amount(s, mine, cur); input(b, mine, cur, n);
			if(n > uint128(2) && s.chance(30)) { output(b, any_addr(s), cur, n - uint128(1), memo(s)); output(b, any_addr(s), cur, 1, memo(s)); } else output(b, any_addr(s), cur, n, memo(s));
			if(wild && s.chance(3)) b.tx->outputs.back().amount += s.range(0, 1) ? uint128(1) : uint128(u64(-1)) << 64;
			if(wild && s.chance(2)) b.tx->outputs.back().amount = s.range(0, 1) ? uint128(0) : b.tx->outputs.back().amount - uint128(1);
			if(s.chance(10)) sender = s.pick(w.user);
		} else if(kind == "multi_transfer") {
			const auto n = s.range(2, 4); std::map<addr_t, Z> sum;
			for(u64 i = 0; i < n; ++i) { const auto& u = s.pick(w.user); const auto cur = currency(s, u.addr); const auto a = amount(s, u.addr, cur); input(b, u.addr, cur, a); sum[cur] += zof(a); }
			for(const auto& e : sum) { Z left = e.second; const auto parts = s.range(1, 3); for(u64 i = 0; i < parts && left > 0; ++i) { Z a = i + 1 == parts ? left : Z(1) + left / Z(s.range(2, 4)); if(a > left) a = left; output(b, any_addr(s), e.first, uint128(a.str()), memo(s)); left -= a; } if(left > 0) output(b, any_addr(s), e.first, uint128(left.str())); }
		} else if(kind == "token") { b.tx->deploy = exec(net.params->token_binary, {V(mine)}, "Token", "TOK" + std::to_string(s.range(0, 9)), int(s.range(0, 9))); deploy(b, "token", ui);
			if(s.flip()) call(b, addr_t(), "mint_to", {V(mine), V(uint128(s.range(1, 1000000000000ull))), V(nullptr)}, mine);
		} else if(kind == "mint") { const auto t = find(s, "token"); const auto who = s.chance(80) ? user(t->owner).addr : mine; if(who == user(t->owner).addr) sender = user(t->owner);
			call(b, t->addr, "mint_to", {V(any_addr(s)), V(uint128(s.pick_weighted<u64>({{5, s.range(1, 1000)}, {5, s.range(1, 1000000000000ull)}, {1, u64(-1)}}))), s.chance(80) ? V(nullptr) : vnx::Variant(false)}, who);
		} else if(kind == "pubkey") { auto k = contract::PubKey::create(); k->address = s.pick(w.user).addr; b.tx->deploy = k; deploy(b, "wallet", ui); if(s.flip()) input(b, mine, addr_t(), amount(s, mine, addr_t()));
		} else if(kind == "multisig") { auto k = contract::MultiSig::create(); const auto n = s.range(1, 3); for(u64 i = 0; i < n; ++i) k->owners.insert(s.pick(w.user).addr); k->num_required = uint32_t(s.range(1, k->owners.size())); b.tx->deploy = k; deploy(b, "wallet", ui); if(s.flip()) input(b, mine, addr_t(), amount(s, mine, addr_t()));
		} else if(kind == "spend_exec") { const auto x = find(s, "wallet");
			if(led.get(x->addr, addr_t()) == 0) { const auto n = amount(s, mine, addr_t()); input(b, mine, addr_t(), n); output(b, x->addr, addr_t(), n); }
			else { const auto cur = currency(s, x->addr); const auto n = amount(s, x->addr, cur); input(b, x->addr, cur, n, !wild || !s.chance(5)); output(b, any_addr(s), cur, n, memo(s)); }
		} else if(kind == "time_lock") { b.tx->deploy = exec(net.params->time_lock_binary, {V(mine), V(u64(next_height() + s.range(0, 10)))}, "Lock", ""); deploy(b, "locked", ui, addr_t(), addr_t(), uint256_t(0)); if(s.flip()) input(b, mine, addr_t(), amount(s, mine, addr_t()));
		} else if(kind == "escrow") { b.tx->deploy = exec(net.params->escrow_binary, {V(mine), V(s.pick(w.user).addr), V(any_addr(s))}, "Escrow", ""); deploy(b, "locked", ui, addr_t(), addr_t(), 1); if(s.flip()) input(b, mine, addr_t(), amount(s, mine, addr_t()));
		} else if(kind == "locked") { const auto x = find(s, "locked"); const auto who = s.flip() ? user(x->owner) : s.pick(w.user); sender = who;
			if(s.chance(35)) { const auto cur = currency(s, mine); const auto n = amount(s, mine, cur); input(b, mine, cur, n); deposit(b, x->addr, cur, n); }
			else if(x->price == 0) call(b, x->addr, s.chance(85) ? "withdraw" : "set_unlock_height", {V(any_addr(s)), V(u64(amount(s, x->addr, addr_t()))), V(addr_t())}, who.addr);
			else call(b, x->addr, s.chance(80) ? "unlock" : "cancel", {s.chance(85) ? V(nullptr) : V(addr_t())}, s.chance(40) ? s.pick(w.user).addr : who.addr);
		} else if(kind == "offer") { const auto t = find(s, "token"); const bool dir = s.flip(); const auto bid = dir ? t->addr : addr_t(), ask = dir ? addr_t() : t->addr;
			const auto n = amount(s, mine, bid); const uint256_t price = s.chance(10) ? uint256_t(1) << int(s.range(30, 90)) : (uint256_t(s.range(1, 5000)) << 64) / uint256_t(s.range(1, 5000));
			b.tx->deploy = exec(net.params->offer_binary, {V(mine), V(bid), V(ask), V(price.str(10)), s.chance(15) ? V(s.pick(w.user).addr) : V(nullptr)}, "Offer", "");
			input(b, mine, bid, n); if(s.flip()) deposit(b, addr_t(), bid, n, "deposit", {}, mine);
			deploy(b, "offer", ui, bid, ask, price);
		} else if(kind == "offer_use") { const auto x = find(s, "offer"); const auto m = s.pick_weighted<str>({{5, "trade"}, {5, "accept"}, {2, "cancel"}, {2, "withdraw"}, {2, "deposit"}, {1, "set_price"}, {1, "recover"}});
			if(m == "trade" || m == "accept") {
				const Z have = led.get(x->addr, x->a); Z price(x->price.str(10)); Z want = price > 0 ? ((have << 64) + price - 1) / price : Z(1);
				if(want <= 0 || want > Z(1) << 62) want = 1000;
				Z n = m == "accept" && s.flip() ? want : s.flip() ? Z(1) + want / Z(s.range(1, 5)) : want + s.range(0, 2);
				input(b, mine, x->b, uint128(n.str())); deposit(b, x->addr, x->b, uint128(n.str()), m, {V(mine), V((wild && s.chance(5) ? x->price + 1 : x->price).str(10))}, s.flip() ? vnx::optional<addr_t>(mine) : vnx::optional<addr_t>());
			} else { sender = user(x->owner); const auto who = sender.addr;
				if(m == "deposit") { const auto n = amount(s, who, x->a); input(b, who, x->a, n); deposit(b, x->addr, x->a, n, "deposit", {}, who); }
				else if(m == "set_price") call(b, x->addr, m, {V(str("12345678901234567890"))}, who);
				else if(m == "recover") call(b, x->addr, m, {V(amount(s, x->addr, x->a)), V(x->a)}, who);
				else call(b, x->addr, m, {}, s.chance(90) ? who : mine); }
		} else if(kind == "swap") { const auto t = find(s, "token"); b.tx->deploy = exec(net.params->swap_binary, {V(t->addr), V(addr_t())}, "Swap", ""); deploy(b, "swap", ui, t->addr, addr_t());
			if(s.chance(40)) { const auto n = amount(s, mine, addr_t()); input(b, mine, addr_t(), n); deposit(b, addr_t(), addr_t(), n, "add_liquid", {V(u64(1)), V(u64(s.range(0, 3)))}, mine); }
		} else if(kind == "swap_use") { const auto x = find(s, "swap"); const auto m = s.pick_weighted<str>({{5, "add_liquid"}, {6, "trade"}, {2, "payout"}, {2, "rem_all_liquid"}, {2, "rem_liquid"}, {1, "switch_pool"}});
			const u64 i = s.range(0, 1); const auto cur = i ? x->b : x->a;
			if(m == "add_liquid") { const auto n = amount(s, mine, cur); input(b, mine, cur, n); deposit(b, x->addr, cur, n, m, {V(i), V(s.range(0, 3))}, mine); }
			else if(m == "trade") { const auto n = amount(s, mine, cur); input(b, mine, cur, n); deposit(b, x->addr, cur, n, m, {V(i), V(any_addr(s)), s.flip() ? V(u64(1)) : V(nullptr), V(s.range(1, 4))}, mine); }
			else if(m == "rem_all_liquid") call(b, x->addr, m, std::vector<vnx::Variant>{vnx::Variant(s.chance(30))}, mine);
			else if(m == "rem_liquid") call(b, x->addr, m, {V(i), V(u64(s.range(1, 1000))), vnx::Variant(s.flip())}, mine);
			else if(m == "switch_pool") call(b, x->addr, m, {V(s.range(0, 3))}, mine);
			else call(b, x->addr, m, {}, mine);
		} else if(kind == "plot_nft") { b.tx->deploy = exec(net.params->plot_nft_binary, {V(mine)}, "Plot", "PN"); deploy(b, "plot_nft", ui);
			if(s.flip()) call(b, addr_t(), "lock", {V(any_addr(s)), V(str("http://pool"))}, mine);
		} else if(kind == "plot_nft_use") { const auto x = find(s, "plot_nft"); sender = s.chance(90) ? user(x->owner) : me;
			const auto m = s.of<str>({"lock", "unlock", "transfer", "set_server_url", "claim_all", "lock"});
			call(b, x->addr, m, m == "lock" ? std::vector<vnx::Variant>{V(any_addr(s)), s.flip() ? V(str("http://pool" + std::to_string(s.range(0, 2)))) : V(nullptr)} : m == "transfer" ? std::vector<vnx::Variant>{V(s.pick(w.user).addr)} : m == "set_server_url" ? std::vector<vnx::Variant>{V(str("url"))} : m == "claim_all" ? std::vector<vnx::Variant>{V(nullptr)} : std::vector<vnx::Variant>{}, sender.addr);
		} else if(kind == "nft") { b.tx->deploy = exec(net.params->nft_binary, {V(mine)}, "Nft", "NFT"); deploy(b, "nft", ui); if(s.flip()) call(b, addr_t(), "mint_to", {V(any_addr(s)), V(nullptr)}, mine);
		} else if(kind == "virtual_plot") { b.tx->deploy = exec(net.params->nft_binary, {V(any_addr(s))}, "N", "", int(s.range(0, 1)));
		} else if(kind == "bank") { auto e = exec(*bank, {V(mine)}, "Bank", ""); auto v = live_cons("bank"); if(v.size() && s.chance(70)) e->depends["peer"] = s.pick(v)->addr; else if(wild && s.chance(10)) e->depends["peer"] = any_addr(s);
			b.tx->deploy = e; deploy(b, "bank", ui); if(s.flip()) { const auto cur = currency(s, mine); input(b, mine, cur, amount(s, mine, cur)); }
			if(s.chance(30)) call(b, addr_t(), "put", {V(str("k")), V(u64(1))});
		} else if(kind == "bank_use") { const auto n = s.pick_weighted<int>({{6, 1}, {3, 2}, {1, 4}});
			for(int i = 0; i < n; ++i) { const auto x = find(s, "bank"); const auto m = s.pick_weighted<str>({{5, "deposit"}, {5, "pay"}, {2, "pay_two"}, {4, "put"}, {2, "unset"}, {4, "add"}, {2, "drop"}, {2, "nest"}, {2, "burn"}, {1, "grow"}, {2, "fail_late"}, {2, "need"}, {3, "guarded"}, {2, "make"}, {5, "forward"}, {2, "forward_set"}, {2, "forward_fail"}, {2, "at_height"}, {1, "plain"}, {1, "nothing"}});
				const vnx::optional<addr_t> who = s.flip() ? vnx::optional<addr_t>(mine) : vnx::optional<addr_t>();
				auto key_arg = [&]() { return V(str("k" + std::to_string(s.range(0, 3)))); };
				if(m == "deposit") { const auto cur = currency(s, mine); const auto a = amount(s, mine, cur); input(b, mine, cur, a); deposit(b, x->addr, cur, a, s.chance(90) ? "deposit" : "plain", {}, who); }
				else if(m == "pay" || m == "pay_two" || m == "forward" || m == "guarded") { const auto cur = currency(s, x->addr); call(b, x->addr, m, {V(any_addr(s)), V(amount(s, x->addr, cur)), V(cur)}, m == "guarded" && s.chance(80) ? (sender = user(x->owner), vnx::optional<addr_t>(sender.addr)) : who); }
				else if(m == "put" || m == "nest" || m == "forward_set") call(b, x->addr, m, {key_arg(), s.flip() ? V(s.range(0, 5)) : key_arg()}, who);
				else if(m == "unset" || m == "need") call(b, x->addr, m, {key_arg()}, who);
				else if(m == "add") call(b, x->addr, m, {V(s.range(0, 100))}, who);
				else if(m == "burn") call(b, x->addr, m, {V(s.range(0, 300))}, who);
				else if(m == "grow") call(b, x->addr, m, {V(s.range(0, 10))}, who);
				else if(m == "fail_late" || m == "forward_fail") call(b, x->addr, m, {V(s.range(0, 9))}, who);
				else if(m == "make") call(b, x->addr, m, {V(any_addr(s)), V(uint128(s.range(1, 100000)))}, who);
				else call(b, x->addr, m, {}, who);
			}
		} else if(kind == "data") { if(s.flip()) { auto d = contract::Data::create(); d->value = vnx::Variant(str(s.range(0, 50), 'd')); b.tx->deploy = d; } else { auto d = contract::WebData::create(); d->mime_type = "text/plain"; b.tx->deploy = d; } if(wild && s.flip()) input(b, mine, addr_t(), amount(s, mine, addr_t()));
		} else { // stray: calls something that is not there, or calls nothing
			if(s.flip()) call(b, addr_t(hash_t("nothing")), "x", {}); else { input(b, mine, addr_t(), 10); deposit(b, s.flip() ? mine : addr_t(), addr_t(), 10); }
		}
		auto tx = seal(s, b, sender, c);
		kind_of[tx->id] = kind; c.label(kind);
		return tx;
	}
};

} // sim

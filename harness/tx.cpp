// C30 ids and hashes, C31 static validity and cost, C32 authorization, C33 serialization
#include "tx_gen.h"
#include <mmx/helpers.h>
#include <fstream>

SETUP { mmx::secp256k1_init(); }

template<typename T> static std::shared_ptr<T> copy(const T& v) { auto p = T::create(); *p = v; return p; }

// ---- C30
// one change to the content; returns what it touched and whether the id commits to it
static str mutate_tx(Src& s, Transaction& x, bool& in_id) {
	in_id = true;
	auto chg = [&](auto op, auto fn) { auto c = std::dynamic_pointer_cast<const op::Execute>(op); if(auto d = std::dynamic_pointer_cast<const op::Deposit>(c)) { auto n = copy(*d); fn(*n); return std::shared_ptr<const Operation>(n); } auto n = copy(*c); fn(*n); return std::shared_ptr<const Operation>(n); };
	auto io = [&](txio_t& t, const str& w) -> str {
		switch(s.draw(4)) {
			case 0: t.address[s.draw(32)] ^= 1 << s.draw(8); return w + ".address";
			case 1: t.contract[s.draw(32)] ^= 1 << s.draw(8); return w + ".contract";
			case 2: { const unsigned bit = s.draw(128); t.amount = uint128(uint128_t(t.amount) ^ (uint128_t(1) << bit)); return w + ".amount"; }
			default: if(!t.memo) t.memo = str(); else if(s.flip()) t.memo = nullptr; else *t.memo += "x"; return w + ".memo";
		}
	};
	for(int tries = 0; tries < 50; ++tries) {
		switch(s.draw(24)) {
			case 0: x.version ^= 1; return "version";
			case 1: x.expires ^= 1u << s.draw(32); return "expires";
			case 2: x.fee_ratio ^= 1u << s.draw(32); return "fee_ratio";
			case 3: x.max_fee_amount ^= 1u << s.draw(32); return "max_fee_amount";
			case 4: x.note = tx_note_e(tx_note_e::enum_t(uint32_t(x.note) ^ (1u << s.draw(32)))); return "note";
			case 5: x.nonce ^= 1ull << s.draw(64); return "nonce";
			case 6: x.network += "x"; return "network";
			case 7: if(x.sender && s.flip()) (*x.sender)[s.draw(32)] ^= 4; else if(x.sender) x.sender = nullptr; else x.sender = addr_t(); return "sender";
			case 8: if(x.inputs.empty()) break; return io(x.inputs[s.draw(x.inputs.size())], "input");
			case 9: if(x.outputs.empty()) break; return io(x.outputs[s.draw(x.outputs.size())], "output");
			case 10: x.inputs.push_back(gen_in(s)); return "inputs+";
			case 11: x.outputs.push_back(gen_out(s)); return "outputs+";
			case 12: if(x.inputs.size() < 2) break; { auto& a = x.inputs[0]; auto& b = x.inputs[1]; W p(0), q(0); p.in(a, false); q.in(b, false); if(p.s == q.s) break; std::swap(a, b); } return "inputs order";
			case 13: if(x.outputs.empty()) break; x.outputs.pop_back(); return "outputs-";
			case 14: x.execute.push_back(gen_op(s)); return "execute+";
			case 15: if(x.execute.empty()) break; { auto& o = x.execute[s.draw(x.execute.size())]; const auto k = s.draw(6); str what = "?";
				o = chg(o, [&](auto& e) {
					switch(k) {
						case 0: e.address[s.draw(32)] ^= 1; what = "op.address"; break;
						case 1: e.method += "x"; what = "op.method"; break;
						case 2: e.args.push_back(gen_json(s)); what = "op.args+"; break;
						case 3: if(e.user) e.user = nullptr; else e.user = addr_t(); what = "op.user"; break;
						case 4: e.version ^= 1; what = "op.version"; break;
						default: if constexpr(std::is_same<std::decay_t<decltype(e)>, op::Deposit>::value) { if(s.flip()) e.currency[s.draw(32)] ^= 1; else e.amount = uint128(uint128_t(e.amount) ^ (uint128_t(1) << unsigned(s.draw(128)))); what = "op.deposit"; } else { if(e.args.empty()) e.args.emplace_back(); else e.args.pop_back(); what = "op.args-"; }
					}
				}); return what; }
			case 16: { auto old = x.deploy; x.deploy = gen_contract(s); if(ref_contract(old, x.version) == ref_contract(x.deploy, x.version)) { x.deploy = old; break; } return "deploy"; }
			case 17: if(!x.deploy) break; x.deploy = nullptr; return "deploy-";
			case 18: in_id = false; x.static_cost ^= 1u << s.draw(32); return "static_cost";
			case 19: in_id = false; x.solutions.push_back(gen_sol(s)); return "solutions+";
			case 20: in_id = false; if(x.exec_result) { auto& r = *x.exec_result; switch(s.draw(6)) {
					case 0: r.did_fail = !r.did_fail; break; case 1: r.total_cost ^= 1u << s.draw(32); break; case 2: r.total_fee ^= 1u << s.draw(32); break;
					case 3: r.inputs.push_back(gen_in(s)); break; case 4: r.outputs.push_back(gen_out(s)); break;
					default: if(!r.error) r.error = exec_error_t(); else if(s.flip()) r.error->message += "x"; else if(s.flip()) r.error->code ^= 1; else if(s.flip()) r.error->operation ^= 1; else if(s.flip()) r.error->address ^= 1; else if(r.error->line) r.error->line = nullptr; else r.error->line = 7; }
				} else x.exec_result = exec_result_t(); return "exec_result";
			case 21: in_id = false; if(x.inputs.empty()) break; { auto& i = x.inputs[s.draw(x.inputs.size())]; if(s.flip()) i.solution ^= 1 << s.draw(16); else i.flags ^= 1 << s.draw(8); } return "input.solution/flags";
			case 22: in_id = false; if(x.execute.empty()) break; { auto& o = x.execute[s.draw(x.execute.size())]; const auto bit = s.draw(16); o = chg(o, [&](auto& e) { e.solution ^= 1 << bit; }); } return "op.solution";
			default: in_id = false; if(x.solutions.empty()) break; { auto& o = x.solutions[s.draw(x.solutions.size())]; if(auto p = std::dynamic_pointer_cast<const sol::PubKey>(o)) { auto n = copy(*p); if(s.flip()) n->pubkey[s.draw(33)] ^= 1; else n->signature[s.draw(64)] ^= 1; o = n; } else { auto n = copy(*std::dynamic_pointer_cast<const sol::MultiSig>(o)); if(s.flip()) n->num_required ^= 1; else if(n->solutions.empty()) n->solutions[addr_t()] = gen_sol(s, 0); else n->solutions.erase(n->solutions.begin()); o = n; } } return "solution";
		}
		in_id = true;
	}
	x.nonce++; return "nonce";
}
PROPERTY(transaction_id) {
	auto tx = gen_tx(s);
	NOTE(vnx::to_string(tx));
	const auto id = tx->calc_hash(), full = tx->calc_hash(true);
	CHECK_MSG(raw(id) == ref_tx(*tx, false), "id is " << id << ", by definition " << hash_t::from_bytes(ref_tx(*tx, false).data()));
	CHECK_MSG(raw(full) == ref_tx(*tx, true), "content hash differs from the definition");
	{ const auto b = tx->hash_serialize(s.flip()); (void)b; }
	const int n = 1 + s.draw(4);
	for(int i = 0; i < n; ++i) {
		auto t = copy(*tx); bool in_id;
		const auto what = mutate_tx(s, *t, in_id);
		NOTE("change " << what);
		CHECK_MSG((t->calc_hash() != id) == in_id, "change of " << what << (in_id ? " leaves the id unchanged" : " changes the id"));
		CHECK_MSG(t->calc_hash(true) != full, "change of " << what << " leaves the content hash unchanged");
		CHECK_MSG(raw(t->calc_hash()) == ref_tx(*t, false) && raw(t->calc_hash(true)) == ref_tx(*t, true), "hashes of the changed transaction differ from the definition");
	}
	c.nontrivial(!tx->inputs.empty() || !tx->execute.empty() || tx->deploy); if(tx->deploy) c.label("deploy"); if(!tx->execute.empty()) c.label("operations");
}
PROPERTY(block_hash) {
	auto params = ChainParams::create(); params->hardfork2_height = s.flip() ? 5050000 : s.draw(4);
	auto b = Block::create(); gen_header(s, *b); BlockHeader& h = *b;
	auto head = [&](const BlockHeader& x) { return raw(x.calc_hash(params)); };
	const str h0 = head(h);
	CHECK_MSG(h0 == ref_header(h, *params), "block hash differs from the definition");
	auto header = b->get_header();
	if(header->get_type_hash() == BlockHeader::VNX_TYPE_ID) {}
	b->hash = hash_t::from_bytes(h0.data());
	CHECK_MSG(raw(b->calc_content_hash()) == sha256(h0 + raw(*b->farmer_sig)), "content hash of a signed block differs from the definition");
	{ auto t = copy(h); t->farmer_sig = nullptr; CHECK_MSG(raw(t->calc_content_hash()) == sha256(h0), "content hash of an unsigned block"); t->farmer_sig = b->farmer_sig; (*t->farmer_sig)[s.draw(64)] ^= 1; CHECK_MSG(t->calc_content_hash() != b->calc_content_hash(), "signature not covered by the content hash"); }
	auto t = copy(*b); str what; bool covered = true; const auto k = s.draw(36); auto oa = [&](vnx::optional<addr_t>& a) { if(a && s.flip()) (*a)[s.draw(32)] ^= 1; else if(a) a = nullptr; else a = addr_t(); };
	switch(k) {
		case 0: t->version ^= 1; break; case 1: t->support_flags ^= 1u << s.draw(32); break; case 2: t->prev[s.draw(32)] ^= 1; break; case 3: t->nonce ^= 1ull << s.draw(64); break;
		case 4: t->vdf_height ^= 1u << s.draw(32); break; case 5: t->time_stamp ^= 1ll << s.draw(63); break; case 6: t->time_diff ^= 1ull << s.draw(64); break; case 7: t->space_diff ^= 1ull << s.draw(64); break;
		case 8: t->weight = uint128(uint128_t(t->weight) ^ (uint128_t(1) << unsigned(s.draw(128)))); break; case 9: t->total_weight = uint128(uint128_t(t->total_weight) ^ (uint128_t(1) << unsigned(s.draw(128)))); break;
		case 10: t->vdf_count ^= 1u << s.draw(32); break; case 11: t->vdf_iters ^= 1ull << s.draw(64); break; case 12: t->vdf_output[s.draw(32)] ^= 1; break; case 13: t->vdf_reward_addr[0][s.draw(32)] ^= 1; break; case 14: t->vdf_reward_addr.push_back(addr_t()); break;
		case 15: oa(t->vdf_reward_payout); break; case 16: t->proof_hash[s.draw(32)] ^= 1; break; case 17: t->proof_chain[s.draw(32)] ^= 1; covered = h.height >= params->hardfork2_height; break; case 18: t->challenge[s.draw(32)] ^= 1; break;
		case 19: t->is_space_fork = !t->is_space_fork; break; case 20: t->space_fork_len ^= 1u << s.draw(32); break; case 21: t->space_fork_proofs ^= 1u << s.draw(32); break; case 22: t->reward_amount ^= 1ull << s.draw(64); break;
		case 23: oa(t->reward_addr); break; case 24: oa(t->reward_contract); break; case 25: oa(t->reward_account); break; case 26: t->reward_vote = t->reward_vote ? 0 : 1; break; case 27: t->reward_vote_sum ^= 1 << s.draw(31); break;
		case 28: t->reward_vote_count ^= 1u << s.draw(32); break; case 29: t->base_reward ^= 1ull << s.draw(64); break; case 30: t->project_addr[s.draw(32)] ^= 1; break; case 31: t->static_cost ^= 1ull << s.draw(64); break; case 32: t->total_cost ^= 1ull << s.draw(64); break;
		case 33: if(s.flip()) t->tx_count ^= 1u << s.draw(32); else t->tx_hash[s.draw(32)] ^= 1; break; case 34: if(s.flip()) t->tx_fees ^= 1ull << s.draw(64); else t->txfee_buffer ^= 1ull << s.draw(64); break;
		default: if(s.flip()) t->proof.push_back(gen_proof(s)); else t->proof.pop_back();
	}
	CHECK_MSG((head(*t) != h0) == covered, "header change number " << k << (covered ? " is not covered by" : " changes") << " the block hash");
	CHECK_MSG(head(*t) == ref_header(*t, *params), "block hash of the changed header differs from the definition");
	c.nontrivial(true);
}
PROPERTY(part_hash) {
	switch(s.draw(6)) {
		case 0: { auto x = gen_contract(s); const int v = s.draw(2); c.label(x->get_type_name()); CHECK_MSG(raw(x->calc_hash(s.flip(), v)) == ref_contract(x, v), "hash of " << vnx::to_string(x)); break; }
		case 1: { auto x = gen_op(s); const int v = s.draw(2); const bool full = s.flip(); c.label(x->get_type_name()); CHECK_MSG(raw(x->calc_hash(full, v)) == ref_operation(x, full, v), "hash of " << vnx::to_string(x)); break; }
		case 2: { auto x = gen_sol(s, 2); c.label(x->get_type_name()); CHECK_MSG(raw(x->calc_hash()) == ref_solution(x), "hash of " << vnx::to_string(x)); break; }
		case 3: { auto x = gen_proof(s); c.label("proof");
			CHECK_MSG(raw(x->calc_hash()) == ref_proof(x), "hash of " << vnx::to_string(x));
			auto og = std::dynamic_pointer_cast<ProofOfSpaceOG>(x); auto nft = std::dynamic_pointer_cast<ProofOfSpaceNFT>(x);
			// the plot id binds seed, key, size (and contract): any other id is refused
			str pre = og ? "MMX/PLOTID/OG" : "MMX/PLOTID/NFT"; pre.push_back(char(og ? og->ksize : nft->ksize)); pre += raw(og ? og->seed : nft->seed) + raw(x->farmer_key); if(nft) pre += raw(nft->contract);
			const bool good = s.flip(); x->plot_id = hash_t::from_bytes(sha256(pre).data()); if(!good) x->plot_id[s.draw(32)] ^= 1 << s.draw(8);
			bool ok = true; try { x->validate(); } catch(const std::exception&) { ok = false; }
			CHECK_MSG(ok == good, "plot id " << (good ? "refused" : "accepted though it is not the plot's")); break; }
		case 4: { auto x = ProofOfTime::create(); c.label("pot"); x->vdf_height = s.u32(); x->start = s.u64(); x->num_iters = s.u64(); x->segment_size = s.u32(); x->input = gen_hash(s); x->prev = gen_hash(s); x->reward_addr = gen_addr(s); for(u64 n = s.draw(4); n; --n) x->segments.push_back(gen_hash(s)); x->timelord_key = gen_pubkey(s); x->timelord_sig = gen_sig(s);
			const str h = ref_pot(*x); CHECK_MSG(raw(x->calc_hash()) == h, "hash of " << vnx::to_string(x)); x->hash = x->calc_hash();
			const str ch = sha256(h + raw(x->timelord_key) + raw(x->timelord_sig)); CHECK_MSG(raw(x->calc_content_hash()) == ch, "content hash of a proof of time"); x->content_hash = x->calc_content_hash();
			const bool want = x->vdf_height && x->num_iters && !x->segments.empty(); CHECK_MSG(x->is_valid() == want, "proof of time valid: " << x->is_valid());
			CHECK_MSG(x->get_output() == (x->segments.empty() ? hash_t() : x->segments.back()) && x->get_vdf_iters() == x->start + x->num_iters, "output / iterations");
			if(want) { switch(s.draw(8)) { case 0: x->start ^= 1ull << s.draw(64); break; case 1: x->input[s.draw(32)] ^= 1; break; case 2: x->prev[s.draw(32)] ^= 1; break; case 3: x->reward_addr[s.draw(32)] ^= 1; break; case 4: x->segments[s.draw(x->segments.size())][3] ^= 1; break; case 5: x->timelord_sig[s.draw(64)] ^= 1; break; case 6: x->timelord_key[s.draw(33)] ^= 1; break; default: x->segment_size ^= 1; } CHECK_MSG(!x->is_valid(), "altered proof of time still valid"); }
			break; }
		default: { auto x = ValidatorVote::create(); c.label("vote"); x->hash = gen_hash(s); x->farmer_key = gen_pubkey(s); x->farmer_sig = gen_sig(s); x->content_hash = x->calc_content_hash();
			CHECK_MSG(raw(x->content_hash) == sha256(raw(x->hash) + raw(x->farmer_key) + raw(x->farmer_sig)), "content hash of a vote"); }
	}
	c.nontrivial(true);
}

// ---- C31
static Z io_cost(const txio_t& x, const ChainParams& p) { Z r = p.min_txfee_io; if(x.memo) r += Z(std::max<size_t>((x.memo->size() + 31) / 32, 1)) * p.min_txfee_memo; return r; }
static Z json_bytes(const vnx::Variant& v) {
	if(v.is_null() || v.is_bool()) return 1; if(v.is_long() || v.is_ulong()) return 8; if(v.is_string()) return 4 + v.to<str>().size();
	Z r = 4; if(v.is_array()) { for(const auto& e : v.to<std::vector<vnx::Variant>>()) r += json_bytes(e); return r; }
	for(const auto& e : v.to_object().field) r += e.first.size() + json_bytes(e.second); return r;
}
static Z sol_cost(std::shared_ptr<const Solution> x, const ChainParams& p) { Z r = p.min_txfee_sign; if(auto m = std::dynamic_pointer_cast<const sol::MultiSig>(x)) for(const auto& e : m->solutions) r += sol_cost(e.second, p); return r; }
static Z contract_bytes(std::shared_ptr<const Contract> x) {
	Z n = 16;
	if(auto b = std::dynamic_pointer_cast<const ct::Binary>(x)) {
		n += b->fields.size() * 4 + b->line_info.size() * 8 + b->name.size() + b->constant.size() + b->binary.size() + b->source.size() + b->compiler.size();
		for(const auto& e : b->fields) n += e.first.size();
		for(const auto& e : b->methods) { n += e.first.size() + 3 + 4 + 4 * 3 + e.second.name.size() + e.second.info.size() + e.second.args.size() * 4; for(const auto& a : e.second.args) n += a.size(); }
	}
	if(auto d = std::dynamic_pointer_cast<const ct::Data>(x)) n += json_bytes(d->value);
	if(auto m = std::dynamic_pointer_cast<const ct::MultiSig>(x)) n += m->owners.size() * 32;
	if(std::dynamic_pointer_cast<const ct::PubKey>(x)) n += 32;
	if(auto w = std::dynamic_pointer_cast<const ct::WebData>(x)) n += w->mime_type.size() + w->payload.size();
	if(auto t = std::dynamic_pointer_cast<const ct::TokenBase>(x)) n += t->name.size() + t->symbol.size() + json_bytes(t->meta_data);
	if(auto e = std::dynamic_pointer_cast<const ct::Executable>(x)) { n += 32 + e->init_method.size() + e->depends.size() * 32; for(const auto& a : e->init_args) n += json_bytes(a); for(const auto& d : e->depends) n += d.first.size(); }
	return n;
}
static Z ref_cost(const Transaction& x, const ChainParams& p) {
	Z r = p.min_txfee; r += Z(x.execute.size()) * p.min_txfee_exec;
	for(const auto& i : x.get_inputs()) r += io_cost(i, p); for(const auto& o : x.get_outputs()) r += io_cost(o, p);
	for(const auto& o : x.execute) { auto e = std::dynamic_pointer_cast<const op::Execute>(o); Z n = e->method.size(); for(const auto& a : e->args) n += json_bytes(a); r += n * p.min_txfee_byte; }
	for(const auto& v : x.solutions) r += sol_cost(v, p);
	if(x.deploy) { r += p.min_txfee_deploy + contract_bytes(x.deploy) * p.min_txfee_byte; if(auto e = std::dynamic_pointer_cast<const ct::Executable>(x.deploy)) r += Z(e->depends.size()) * p.min_txfee_depend; }
	return r;
}
static std::shared_ptr<ChainParams> gen_params(Src& s) {
	auto p = ChainParams::create(); p->network = "mainnet";
	if(s.flip()) for(auto f : {&p->min_txfee, &p->min_txfee_io, &p->min_txfee_sign, &p->min_txfee_memo, &p->min_txfee_exec, &p->min_txfee_deploy, &p->min_txfee_depend, &p->min_txfee_byte}) *f = s.draw(100000);
	return p;
}
static void seal(Transaction& x, std::shared_ptr<const ChainParams> p) { x.static_cost = x.calc_cost(p); x.id = x.calc_hash(); x.content_hash = x.calc_hash(true); }
// a transaction that satisfies every static rule
static std::shared_ptr<Transaction> gen_valid_tx(Src& s, std::shared_ptr<const ChainParams> p) {
	auto tx = gen_tx(s); tx->network = p->network; if(!tx->nonce) tx->nonce = 1;
	std::set<str> seen; decltype(tx->solutions) sols; for(const auto& v : tx->solutions) if(seen.insert(ref_solution(v)).second) sols.push_back(v); tx->solutions = sols;
	if(tx->version >= 1) {		// every solution is referenced
		for(size_t i = 0; i < sols.size(); ++i) {
			bool used = (i == 0 && tx->sender); for(const auto& in : tx->inputs) used |= in.solution == i;
			for(const auto& o : tx->execute) { auto e = std::dynamic_pointer_cast<const op::Execute>(o); used |= e->user && e->solution == i; }
			if(!used) { txin_t in = gen_in(s); in.solution = i; tx->inputs.push_back(in); }
		}
	}
	seal(*tx, p);
	return tx;
}
PROPERTY(static_rules) {
	auto p = gen_params(s); auto tx = gen_valid_tx(s, p);
	NOTE(vnx::to_string(tx));
	const Z cost = ref_cost(*tx, *p);
	CHECK_MSG(Z(tx->calc_cost(p)) == cost, "cost is " << tx->calc_cost(p) << ", by definition " << cost);
	CHECK_MSG(cost >> 32 || tx->is_valid(p), "valid transaction refused");
	if(cost >> 32) return;
	auto t = copy(*tx); str what; bool reseal = true;
	auto op_edit = [&](auto fn) { if(t->execute.empty()) t->execute.push_back(gen_op(s)); auto& o = t->execute[s.draw(t->execute.size())]; if(auto d = std::dynamic_pointer_cast<const op::Deposit>(o)) { auto n = copy(*d); fn(*n); o = n; } else { auto n = copy(*std::dynamic_pointer_cast<const op::Execute>(o)); fn(*n); o = n; } };
	const auto fault = s.draw(22);
	switch(fault) {
		case 0: t->version = 2 + s.draw(3); what = "unknown version"; break;
		case 1: t->nonce = 0; what = "no nonce"; break;
		case 2: t->fee_ratio = s.draw(1024); what = "fee ratio below one"; break;
		case 3: t->network += "2"; what = "other network"; break;
		case 4: t->static_cost += 1 + s.draw(5); t->content_hash = t->calc_hash(true); reseal = false; what = "wrong cost"; break;
		case 5: t->id[s.draw(32)] ^= 1; reseal = false; what = "wrong id"; break;
		case 6: t->content_hash[s.draw(32)] ^= 1; reseal = false; what = "wrong content hash"; break;
		case 7: { auto i = gen_in(s); i.solution = -1; i.memo = str(65 + s.draw(10), 'x'); t->inputs.push_back(i); what = "long input memo"; break; }
		case 8: { auto o = gen_out(s); o.memo = str(65 + s.draw(10), 'x'); t->outputs.push_back(o); what = "long output memo"; break; }
		case 9: op_edit([&](auto& e) { e.method.clear(); }); what = "operation without method"; break;
		case 10: op_edit([&](auto& e) { e.args.push_back(gen_not_json(s)); }); what = "operation argument is not JSON"; break;
		case 11: { auto d = op::Deposit::create(); d->method = "m"; d->amount = 0; t->execute.push_back(d); what = "deposit of nothing"; break; }
		case 12: op_edit([&](auto& e) { e.version = 1 + s.draw(3); }); what = "unknown operation version"; break;
		case 13: t->execute.push_back(nullptr); what = "null operation"; break;
		case 14: { auto v = sol::PubKey::create(); v->version = 1; v->pubkey = gen_pubkey(s); auto i = gen_in(s); i.solution = t->solutions.size(); t->inputs.push_back(i); t->solutions.push_back(v); what = "unknown solution version"; break; }
		case 15: { auto m = sol::MultiSig::create(); auto v = sol::PubKey::create(); v->version = 1; if(s.flip()) m->solutions[gen_addr(s)] = v; else m->solutions[gen_addr(s)] = nullptr; auto i = gen_in(s); i.solution = t->solutions.size(); t->inputs.push_back(i); t->solutions.push_back(m); what = "invalid solution inside multi-signature"; break; }
		case 16: if(!t->exec_result) t->exec_result = exec_result_t(); { auto i = gen_in(s); i.memo = str(65, 'x'); if(s.flip()) t->exec_result->inputs.push_back(i); else { txout_t o; static_cast<txio_t&>(o) = i; t->exec_result->outputs.push_back(o); } } what = "long memo in result"; break;
		case 17: { if(!t->exec_result) t->exec_result = exec_result_t(); exec_error_t e; e.message = str(161 + s.draw(9), 'x'); t->exec_result->error = e; what = "long error message"; break; }
		case 18: t->version = 1; if(t->solutions.empty()) t->solutions.push_back(gen_sol(s)); t->solutions.push_back(t->solutions[s.draw(t->solutions.size())]); { size_t k = 0; for(size_t i = 0; i < t->solutions.size(); ++i) { auto in = gen_in(s); in.solution = i; t->inputs.push_back(in); (void)k; } } what = "same solution twice"; break;
		case 19: { t->version = 1; std::set<str> have; for(const auto& v : t->solutions) have.insert(ref_solution(v)); auto v = gen_sol(s); if(t->solutions.empty()) { t->sender = nullptr; } for(auto& in : t->inputs) if(in.solution == t->solutions.size()) in.solution = -1;
			for(auto& o : t->execute) { auto e = std::dynamic_pointer_cast<const op::Execute>(o); if(e->solution == t->solutions.size()) { if(auto d = std::dynamic_pointer_cast<const op::Deposit>(o)) { auto n = copy(*d); n->solution = -1; o = n; } else { auto n = copy(*e); n->solution = -1; o = n; } } }
			t->solutions.push_back(v); what = "solution nothing refers to"; break; }
		case 20: t->solutions.push_back(nullptr); { auto i = gen_in(s); i.solution = t->solutions.size() - 1; t->inputs.push_back(i); } what = "null solution"; break;
		default: what = ""; break;		// control: no fault
	}
	NOTE("fault: " << what);
	if(reseal) seal(*t, p);
	bool ok = false; try { ok = t->is_valid(p); } catch(const std::exception& e) { NOTE("refused: " << e.what()); }
	CHECK_MSG(ok == what.empty(), "transaction with fault '" << what << "' " << (ok ? "accepted" : "refused"));
	c.nontrivial(true); c.label(what);
}
PROPERTY(contract_rules) {
	auto x = gen_contract(s);
	CHECK_MSG(x->is_valid(), "valid contract refused: " << vnx::to_string(x));
	CHECK_MSG(Z(x->num_bytes()) == contract_bytes(x), "size of " << vnx::to_string(x) << " is " << x->num_bytes());
	auto y = std::dynamic_pointer_cast<Contract>(x->clone()); str what = "version";
	auto t = std::dynamic_pointer_cast<ct::TokenBase>(y); auto e = std::dynamic_pointer_cast<ct::Executable>(y);
	const bool base = s.chance(20);
	if(base) y->version = 1 + s.draw(3);
	else if(auto b = std::dynamic_pointer_cast<ct::Binary>(y)) { ct::method_t m; m.name = "q"; const auto k = s.draw(4); if(k == 0) m.is_payable = m.is_const = true; else { m.is_init = true; (k == 1 ? m.is_const : k == 2 ? m.is_public : m.is_payable) = true; } b->methods["q"] = m; what = "method qualifiers"; }
	else if(auto d = std::dynamic_pointer_cast<ct::Data>(y)) { d->value = gen_not_json(s); what = "value"; }
	else if(auto m = std::dynamic_pointer_cast<ct::MultiSig>(y)) { m->num_required = s.flip() ? 0 : m->owners.size() + 1 + s.draw(3); what = "num_required"; }
	else if(auto q = std::dynamic_pointer_cast<ct::PubKey>(y)) { q->address = addr_t(); what = "address"; }
	else if(auto w = std::dynamic_pointer_cast<ct::WebData>(y)) { w->mime_type = str(257 + s.draw(5), 'x'); what = "mime type"; }
	else switch(s.draw(e ? 9 : 6)) {
		case 0: t->name = str(65 + s.draw(5), 'x'); what = "name"; break; case 1: t->symbol = str(7 + s.draw(5), 'A'); what = "symbol"; break; case 2: t->symbol = "MMX"; what = "native symbol"; break;
		case 3: t->symbol = str("A") + s.of({' ', '\n', '\t', '\r', '\b', '\f'}); what = "blank in symbol"; break; case 4: t->decimals = s.flip() ? -1 : 19; what = "decimals"; break; case 5: t->meta_data = gen_not_json(s); what = "meta data"; break;
		case 6: e->binary = addr_t(); what = "binary"; break; case 7: e->init_args.push_back(gen_not_json(s)); what = "init args"; break; default: e->depends[str(65, 'd')] = addr_t(); what = "depends"; break;
	}
	CHECK_MSG(!y->is_valid(), "contract with bad " << what << " accepted: " << vnx::to_string(y));
	c.nontrivial(true); c.label(what);
}
PROPERTY(block_sums) {
	auto p = gen_params(s); p->hardfork2_height = s.draw(4); auto b = Block::create(); gen_header(s, *b);
	if(s.flip()) { p->fixed_project_reward = s.draw(100000); p->project_ratio.value = s.draw(3); p->project_ratio.inverse = 1 + s.draw(20); } p->vdf_reward = s.draw(1000000);
	std::vector<Z> sums(3);
	for(u64 n = s.draw(4); n; --n) { auto tx = gen_valid_tx(s, p); if(!tx->exec_result && b->height) { tx->exec_result = gen_result(s); } seal(*tx, p); b->tx_list.push_back(tx); sums[0] += tx->static_cost; if(tx->exec_result) { sums[1] += tx->exec_result->total_cost; sums[2] += tx->exec_result->total_fee; } }
	b->finalize(p); b->content_hash = b->calc_content_hash();
	CHECK_MSG(Z(b->static_cost) == sums[0] && Z(b->total_cost) == sums[1] && Z(b->tx_fees) == sums[2] && b->tx_count == b->tx_list.size(), "sums of the finalized block");
	CHECK_MSG(b->is_valid(p), "finalized block refused");
	// what the block pays and spends, by definition
	std::vector<str> in, out; auto line = [&](const hash_t& id, uint32_t type, const txio_t& x) { W w(0); w.by(id).u(type).io(x); return w.s; };
	auto plain = [&](const addr_t& a, const uint128& n) { txio_t t; t.address = a; t.amount = n; return t; };
	if(b->vdf_reward_payout) out.push_back(line(b->hash, uint32_t(tx_type_e::VDF_REWARD), plain(*b->vdf_reward_payout, p->vdf_reward)));
	if(b->reward_addr && b->reward_amount) out.push_back(line(b->hash, uint32_t(tx_type_e::REWARD), plain(*b->reward_addr, b->reward_amount)));
	const auto project = calc_project_reward(p, b->tx_fees); if(project) out.push_back(line(b->hash, uint32_t(tx_type_e::PROJECT_REWARD), plain(b->project_addr, project)));
	for(const auto& tx : b->tx_list) {
		if(tx->exec_result && tx->sender) in.push_back(line(tx->id, uint32_t(tx_type_e::TXFEE), plain(*tx->sender, tx->exec_result->total_fee)));
		if(tx->exec_result && tx->exec_result->did_fail) continue;
		for(const auto& x : tx->inputs) in.push_back(line(tx->id, uint32_t(tx_type_e::SPEND), x)); for(const auto& x : tx->outputs) out.push_back(line(tx->id, uint32_t(tx_type_e::RECEIVE), x));
		if(tx->exec_result) { for(const auto& x : tx->exec_result->inputs) in.push_back(line(tx->id, uint32_t(tx_type_e::SPEND), x)); for(const auto& x : tx->exec_result->outputs) out.push_back(line(tx->id, uint32_t(tx_type_e::RECEIVE), x)); }
	}
	std::vector<str> gin, gout; for(const auto& x : b->get_inputs(p)) { gin.push_back(line(x.txid, uint32_t(x.type), x)); CHECK_MSG(x.height == b->height && x.time_stamp == b->time_stamp, "entry height"); } for(const auto& x : b->get_outputs(p)) gout.push_back(line(x.txid, uint32_t(x.type), x));
	std::sort(in.begin(), in.end()); std::sort(out.begin(), out.end()); std::sort(gin.begin(), gin.end()); std::sort(gout.begin(), gout.end());
	CHECK_MSG(in == gin, "block spends " << gin.size() << " entries, expected " << in.size() << " (or different ones)");
	CHECK_MSG(out == gout, "block pays " << gout.size() << " entries, expected " << out.size() << " (or different ones)");
	// one alteration
	auto t = copy(*b); str what; bool rehash = true;
	switch(s.draw(14)) {
		case 0: t->static_cost++; what = "static cost"; break; case 1: t->total_cost++; what = "total cost"; break; case 2: t->tx_fees++; what = "fees"; break; case 3: t->tx_count++; what = "count"; break; case 4: t->tx_hash[s.draw(32)] ^= 1; what = "tx hash"; break;
		case 5: t->farmer_sig = nullptr; if(!t->height) return; what = "no signature"; break; case 6: t->proof.clear(); if(!t->height) return; what = "no proof"; break; case 7: t->vdf_count++; what = "vdf count"; break; case 8: t->reward_addr = nullptr; t->reward_amount = 1; what = "reward without address"; break;
		case 9: t->version = 1; what = "version"; break; case 10: t->hash[s.draw(32)] ^= 1; rehash = false; t->content_hash = t->calc_content_hash(); what = "hash"; break; case 11: t->content_hash[s.draw(32)] ^= 1; rehash = false; what = "content hash"; break;
		case 12: if(t->tx_list.empty()) return; { auto n = copy(*t->tx_list[0]); n->content_hash[s.draw(32)] ^= 1; const bool upd = s.flip(); t->tx_list[0] = n; if(upd) t->tx_hash = t->calc_tx_hash(); what = "transaction content hash"; break; }
		default: if(t->tx_list.empty()) return; { auto n = copy(*t->tx_list[0]); bool in_id; mutate_tx(s, *n, in_id); t->tx_list[0] = n; what = "transaction content"; if(s.flip()) { n->content_hash = n->calc_hash(true); what += " rehashed"; } }
	}
	if(rehash) { t->hash = t->calc_hash(p); t->content_hash = t->calc_content_hash(); }
	bool ok = false; try { ok = t->is_valid(p); } catch(const std::exception&) {}
	CHECK_MSG(!ok, "block with altered " << what << " accepted");
	c.nontrivial(!b->tx_list.empty()); c.label(what);
}
PROPERTY(tx_totals) {
	auto tx = gen_tx(s); if(s.flip()) { for(auto& i : tx->inputs) i.contract = addr_t(); for(auto& o : tx->outputs) o.contract = addr_t(); }
	std::map<addr_t, std::pair<Z, Z>> want; auto z = [](const uint128& a) { return (Z(a.upper()) << 64) + a.lower(); }; bool big = false;
	auto ins = tx->inputs; auto outs = tx->outputs; if(tx->exec_result) { ins.insert(ins.end(), tx->exec_result->inputs.begin(), tx->exec_result->inputs.end()); outs.insert(outs.end(), tx->exec_result->outputs.begin(), tx->exec_result->outputs.end()); }
	for(auto& i : ins) want[i.contract].first += z(i.amount); for(auto& o : outs) want[o.contract].second += z(o.amount);
	for(auto& e : want) big |= (e.second.first >> 128) || (e.second.second >> 128);
	CHECK_MSG(tx->get_inputs().size() == ins.size() && tx->get_outputs().size() == outs.size(), "inputs/outputs with results");
	if(!big) { const auto got = tx->get_balance(); CHECK_MSG(got.size() == want.size(), "currencies"); for(auto& e : got) CHECK_MSG(z(e.second.first) == want[e.first].first && z(e.second.second) == want[e.first].second, "total of " << e.first); }
	bool all = true; for(auto& i : tx->inputs) all &= i.solution < tx->solutions.size(); CHECK_MSG(tx->is_signed() == all, "is_signed");
	for(u64 k = 0; k < tx->solutions.size() + 2; ++k) CHECK_MSG(tx->get_solution(k) == (k < tx->solutions.size() ? tx->solutions[k] : nullptr), "get_solution");
	// merging signatures never changes the id and never drops a signature
	auto a = copy(*tx), b = copy(*tx); for(auto& i : a->inputs) i.solution = -1; a->solutions.clear();
	const auto id = a->calc_hash(); a->merge_sign(b);
	CHECK_MSG(a->calc_hash() == id, "merging signatures changes the id");
	for(size_t i = 0; i < a->inputs.size(); ++i) { const auto k = b->inputs[i].solution; const bool has = k < b->solutions.size(); CHECK_MSG((a->inputs[i].solution < a->solutions.size()) == has && (!has || a->solutions[a->inputs[i].solution] == b->solutions[k]), "input " << i << " after merging"); }
	c.nontrivial(ins.size() + outs.size() > 1);
}

// ---- C32 authorization
struct key_pair { skey_t sk; pubkey_t pk; addr_t addr; };
static const std::vector<key_pair>& keys() { static std::vector<key_pair> v; if(v.empty()) for(int i = 0; i < 6; ++i) { key_pair k; k.sk = skey_t(hash_t(str("auth") + char('a' + i))); k.pk = pubkey_t(k.sk); k.addr = k.pk.get_addr(); v.push_back(k); } return v; }
static const signature_t& sign_cached(int k, const hash_t& h) { static std::map<std::pair<int, hash_t>, signature_t> m; auto it = m.find({k, h}); if(it == m.end()) it = m.emplace(std::make_pair(k, h), signature_t::sign(keys()[k].sk, h)).first; return it->second; }
PROPERTY(authorization) {
	std::vector<hash_t> ids; for(int i = 0; i < 4; ++i) ids.push_back(hash_t(str("id") + char('0' + i)));
	const auto txid = ids[s.draw(4)]; const uint32_t version = s.draw(2);
	struct psol { bool good_sig; int key; };		// what was put together
	auto make = [&](psol& d) { auto p = sol::PubKey::create(); d.key = s.draw(keys().size()); p->pubkey = keys()[d.key].pk; d.good_sig = true;
		switch(s.weighted({12, 1, 1, 1})) { case 0: p->signature = sign_cached(d.key, txid); break; case 1: { auto o = ids[s.draw(4)]; d.good_sig = o == txid; p->signature = sign_cached(d.key, o); break; } case 2: { const int k = s.draw(keys().size()); d.good_sig = k == d.key; p->signature = sign_cached(k, txid); break; } default: p->signature = sign_cached(d.key, txid); p->signature[s.draw(63)] ^= 1 << s.draw(8); d.good_sig = false; }
		return p; };
	std::shared_ptr<Contract> con; bool want = false; str what;
	std::shared_ptr<Solution> solution; psol single{}; std::map<addr_t, std::pair<int, psol>> parts; uint32_t num = 0; int kind = s.weighted({5, 6, 1, 1});		// pubkey, multisig, none, invalid type
	std::set<addr_t> owners; uint32_t required = 0; const bool multi = s.chance(70); addr_t owner;
	if(multi) { auto m = ct::MultiSig::create(); for(u64 n = 1 + s.draw(4); n; --n) m->owners.insert(keys()[s.draw(keys().size())].addr); m->num_required = 1 + s.draw(m->owners.size()); if(s.chance(5)) m->num_required++; owners = m->owners; required = m->num_required; con = m; }
	else { auto p = ct::PubKey::create(); p->address = owner = keys()[s.draw(keys().size())].addr; con = p; }
	if(kind == 0) solution = make(single);
	else if(kind == 1) {
		auto m = sol::MultiSig::create(); num = s.chance(80) ? required : s.draw(4); m->num_required = num; const auto n = s.draw(5);
		for(u64 i = 0; i < n; ++i) { psol d{}; auto p = make(d); addr_t slot = keys()[d.key].addr; if(s.chance(10)) slot = keys()[s.draw(keys().size())].addr; int t = 0; std::shared_ptr<Solution> q = p; if(s.chance(4)) { q = s.flip() ? nullptr : std::shared_ptr<Solution>(sol::MultiSig::create()); t = 1; } m->solutions[slot] = q; parts[slot] = {t, d}; }
		solution = m;
	} else if(kind == 3) solution = Solution::create();
	if(!multi) want = kind == 0 && keys()[single.key].addr == owner && single.good_sig;
	else if(kind == 0) want = required == 1 && owners.count(keys()[single.key].addr) && single.good_sig;
	else if(kind == 1) {
		want = version == 0 || num == required; uint32_t count = 0;
		for(const auto& e : parts) {
			if(!owners.count(e.first)) { if(version >= 1) want = false; continue; }
			if(e.second.first) { if(version >= 1) want = false; continue; }
			if(keys()[e.second.second.key].addr != e.first || !e.second.second.good_sig) want = false; else count++;
		}
		if(count < required) want = false;
	}
	NOTE("version " << version << " contract " << vnx::to_string(con) << " solution " << vnx::to_string(solution) << " txid " << txid << " expected " << want);
	bool got = true; try { con->validate(solution, txid, version); } catch(const std::exception& e) { got = false; NOTE("refused: " << e.what()); }
	CHECK_MSG(got == want, "solution " << (got ? "accepted" : "refused"));
	c.nontrivial(kind <= 1); c.label(multi ? "multisig" : "pubkey"); c.label(want ? "accept" : "refuse");
}

// ---- C33 serialization
template<typename T> static str blob(const T& v) { std::vector<uint8_t> b; vnx::VectorOutputStream st(&b); vnx::TypeOutput o(&st); vnx::write(o, v); o.flush(); return str(b.begin(), b.end()); }
static std::shared_ptr<vnx::Value> unblob(const str& d, size_t& used) { vnx::PointerInputStream st(d.data(), d.size()); vnx::TypeInput in(&st); auto v = vnx::read(in); used = in.get_input_pos(); return v; }
static std::shared_ptr<vnx::Value> fresh(const vnx::Hash64& h) { const auto* t = vnx::get_type_code(h); return t ? t->create_value() : nullptr; }
// every public field, independent of the generated serializers
static str dump(std::shared_ptr<const vnx::Value> v) {
	W w(1); if(!v) return "null";
	w.st(v->get_type_name());
	if(auto x = std::dynamic_pointer_cast<const Transaction>(v)) { w.by(x->id).by(x->content_hash); w.s += ref_tx_bytes(*x, true); for(const auto& i : x->inputs) w.u(i.solution).u(i.flags);
		if(x->exec_result) { for(const auto& i : x->exec_result->inputs) w.u(i.solution).u(i.flags); } for(const auto& o : x->execute) w.st(dump(o)); for(const auto& o : x->solutions) w.st(dump(o)); w.st(dump(x->deploy)); return w.s; }
	if(auto x = std::dynamic_pointer_cast<const BlockHeader>(v)) { auto p = ChainParams::create(); p->hardfork2_height = 0; w.st(ref_header(*x, *p)).by(x->hash).by(x->content_hash).opt(x->farmer_sig, [&](const signature_t& q) { w.by(q); }); for(const auto& q : x->proof) w.st(dump(q)); if(auto b = std::dynamic_pointer_cast<const Block>(v)) for(const auto& t : b->tx_list) w.st(dump(t)); return w.s; }
	if(auto x = std::dynamic_pointer_cast<const Operation>(v)) { w.st(ref_operation(x, true, 1)); return w.s; }
	if(auto x = std::dynamic_pointer_cast<const Solution>(v)) { w.st(ref_solution(x)); return w.s; }
	if(auto x = std::dynamic_pointer_cast<const Contract>(v)) { w.st(ref_contract(x, 1)); return w.s; }
	if(auto x = std::dynamic_pointer_cast<const ProofOfSpace>(v)) { w.st(ref_proof(x)); return w.s; }
	if(auto x = std::dynamic_pointer_cast<const ProofOfTime>(v)) { w.st(ref_pot(*x)).by(x->hash).by(x->content_hash).by(x->timelord_key).by(x->timelord_sig); return w.s; }
	if(auto x = std::dynamic_pointer_cast<const ValidatorVote>(v)) { w.by(x->hash).by(x->content_hash).by(x->farmer_key).by(x->farmer_sig); return w.s; }
	FAIL("type " << v->get_type_name());
}
static std::shared_ptr<vnx::Value> gen_object(Src& s) {
	switch(s.draw(8)) {
		case 0: { auto b = Block::create(); gen_header(s, *b); for(u64 n = s.draw(3); n; --n) b->tx_list.push_back(gen_tx(s)); b->hash = gen_hash(s); b->content_hash = gen_hash(s); return b; }
		case 1: { auto b = BlockHeader::create(); gen_header(s, *b); if(s.flip()) b->farmer_sig = nullptr; b->hash = gen_hash(s); return b; }
		case 2: return std::dynamic_pointer_cast<vnx::Value>(std::const_pointer_cast<Operation>(gen_op(s)));
		case 3: return std::const_pointer_cast<Contract>(gen_contract(s));
		case 4: return gen_proof(s);
		case 5: { auto x = ProofOfTime::create(); x->vdf_height = s.u32(); x->start = s.u64(); x->num_iters = s.u64(); x->segment_size = s.u32(); x->input = gen_hash(s); x->prev = gen_hash(s); x->reward_addr = gen_addr(s); for(u64 n = s.draw(4); n; --n) x->segments.push_back(gen_hash(s)); x->timelord_key = gen_pubkey(s); x->timelord_sig = gen_sig(s); x->hash = gen_hash(s); x->content_hash = gen_hash(s); return x; }
		case 6: { auto x = ValidatorVote::create(); x->hash = gen_hash(s); x->farmer_key = gen_pubkey(s); x->farmer_sig = gen_sig(s); x->content_hash = gen_hash(s); return x; }
		default: { auto tx = gen_tx(s); tx->id = gen_hash(s); tx->content_hash = gen_hash(s); return tx; }
	}
}
PROPERTY(object_roundtrip) {
	auto v = gen_object(s); const str want = dump(v); NOTE(vnx::to_string(v));
	c.label(v->get_type_name());
	const str b = blob(std::shared_ptr<const vnx::Value>(v)); size_t used = 0;
	auto r = unblob(b, used);
	CHECK_MSG(r && dump(r) == want, "binary form reads back as " << vnx::to_string(r));
	CHECK_MSG(used == b.size(), "reading stops at " << used << " of " << b.size());
	{ auto k = v->clone(); CHECK_MSG(dump(k) == want, "clone differs"); }
	{ auto o = v->to_object(); auto k = fresh(v->get_type_hash()); CHECK_MSG(k, "type is not registered"); k->from_object(o); CHECK_MSG(dump(k) == want, "object form reads back as " << vnx::to_string(k)); }
	{ const str j = vnx::to_string(std::shared_ptr<const vnx::Value>(v)); std::istringstream in(j); std::shared_ptr<vnx::Value> k; vnx::type<std::shared_ptr<vnx::Value>>().read(in, k); CHECK_MSG(k, "JSON form does not read back: " << j); CHECK_MSG(dump(k) == want, "JSON form " << j << " reads back as " << vnx::to_string(k)); }
	// two values in one stream
	if(s.flip()) { auto v2 = gen_object(s); const str b2 = blob(std::shared_ptr<const vnx::Value>(v2)); const str both = b + b2; vnx::PointerInputStream st(both.data(), both.size()); vnx::TypeInput in(&st); auto x = vnx::read(in); auto y = vnx::read(in); CHECK_MSG(x && y && dump(x) == want && dump(y) == dump(v2), "two objects in sequence"); }
	c.nontrivial(true);
}

// main network transactions shipped with the repository: the ids and contract addresses the network agreed on
static std::vector<std::shared_ptr<const Transaction>> golden() {
	static std::vector<std::shared_ptr<const Transaction>> v;
	if(v.empty()) {
		const char* dir = getenv("REPO_DIR"); const str base = str(dir ? dir : "/repo") + "/data/mainnet/";
		for(const char* n : {"tx_escrow_binary", "tx_nft_binary", "tx_offer_binary", "tx_plot_nft_binary", "tx_project_relay", "tx_relay_binary", "tx_swap_binary", "tx_template_binary", "tx_time_lock_binary", "tx_token_binary"}) {
			auto x = vnx::read_from_file<Transaction>(base + n + ".dat"); if(!x) throw std::runtime_error(str("cannot read ") + n); v.push_back(x);
		}
		std::ifstream in(base + "tx_testnet_rewards.json"); std::shared_ptr<vnx::Value> x; vnx::type<std::shared_ptr<vnx::Value>>().read(in, x); auto t = std::dynamic_pointer_cast<Transaction>(x); if(!t) throw std::runtime_error("cannot read rewards"); v.push_back(t);
	}
	return v;
}
PROPERTY(network_transactions) {
	auto tx = golden()[s.draw(golden().size())]; c.label(tx->id.to_string().substr(0, 8));
	CHECK_MSG(tx->calc_hash() == tx->id && raw(tx->id) == ref_tx(*tx, false), "the network's transaction " << tx->id << " has a different id here: " << tx->calc_hash());
	CHECK_MSG(raw(tx->calc_hash(true)) == ref_tx(*tx, true), "content hash of " << tx->id);
	size_t used = 0; const str b = blob(std::shared_ptr<const vnx::Value>(tx)); CHECK_MSG(dump(unblob(b, used)) == dump(tx) && used == b.size(), "binary form of " << tx->id);
	auto t = copy(*tx); bool in_id; const auto what = mutate_tx(s, *t, in_id);
	CHECK_MSG((t->calc_hash() != tx->id) == in_id && t->calc_hash(true) != tx->calc_hash(true), "change of " << what);
	c.nontrivial(true);
}

#include "solver.h"
#include <chrono>
#include <cstdio>
#include <unistd.h>
#include <sstream>
#include <unordered_set>

static void onErr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}
void Solver::init() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  s = nullptr;
  reset();
}
void Solver::reset() {
  if (s) Z3_solver_dec_ref(ctx, s);
  for (Ex e : litExprs) e->lit = nullptr;
  litExprs.clear();
  s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)rlimit);
  Z3_solver_set_params(ctx, s, p);
  Z3_params_dec_ref(ctx, p);
  nlits = 0;
}
Z3_ast Solver::boolean(Ex e) {
  if (e->zbool) return (Z3_ast)e->zbool;
  Z3_ast r;
  switch (e->k) {
  case K_CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case K_EQ:
    if (e->a->w == 1 && isC(e->b)) { // NOT
      r = Z3_mk_not(ctx, boolean(e->a));
    } else if (e->a->w == 1) r = Z3_mk_iff(ctx, boolean(e->a), boolean(e->b));
    else r = Z3_mk_eq(ctx, bv(e->a), bv(e->b));
    break;
  case K_ULT: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
  case K_SLT: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
  case K_AND: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
  case K_OR: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
  case K_XOR: r = Z3_mk_xor(ctx, boolean(e->a), boolean(e->b)); break;
  case K_ITE: r = Z3_mk_ite(ctx, boolean(e->a), boolean(e->b), boolean(e->c)); break;
  default: {
    Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1));
    r = Z3_mk_eq(ctx, bv(e), one);
  }
  }
  Z3_inc_ref(ctx, r);
  e->zbool = r;
  return r;
}
Z3_ast Solver::bv(Ex e) {
  if (e->zbv) return (Z3_ast)e->zbv;
  Z3_ast r;
  Z3_sort sort = Z3_mk_bv_sort(ctx, e->w);
  switch (e->k) {
  case K_CONST: r = Z3_mk_unsigned_int64(ctx, e->val, sort); break;
  case K_VAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, g_vars[e->val].name.c_str()), sort); break;
  case K_EQ: case K_ULT: case K_SLT:
    r = Z3_mk_ite(ctx, boolean(e), Z3_mk_unsigned_int64(ctx, 1, sort), Z3_mk_unsigned_int64(ctx, 0, sort));
    break;
  case K_ADD: r = Z3_mk_bvadd(ctx, bv(e->a), bv(e->b)); break;
  case K_SUB: r = Z3_mk_bvsub(ctx, bv(e->a), bv(e->b)); break;
  case K_MUL: r = Z3_mk_bvmul(ctx, bv(e->a), bv(e->b)); break;
  case K_UDIV: r = Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
  case K_SDIV: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
  case K_UREM: r = Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
  case K_SREM: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
  case K_AND: r = Z3_mk_bvand(ctx, bv(e->a), bv(e->b)); break;
  case K_OR: r = Z3_mk_bvor(ctx, bv(e->a), bv(e->b)); break;
  case K_XOR: r = Z3_mk_bvxor(ctx, bv(e->a), bv(e->b)); break;
  case K_SHL: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
  case K_LSHR: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
  case K_ASHR: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
  case K_ITE: r = Z3_mk_ite(ctx, boolean(e->a), bv(e->b), bv(e->c)); break;
  case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
  case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
  case K_EXTRACT: r = Z3_mk_extract(ctx, e->val + e->w - 1, e->val, bv(e->a)); break;
  case K_CONCAT: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
  default: abort();
  }
  Z3_inc_ref(ctx, r);
  e->zbv = r;
  return r;
}
int Solver::check(const std::vector<Ex> &pc, Ex extra, Model *m) {
  auto t0 = std::chrono::steady_clock::now();
  if (nlits > 30000) reset();
  std::vector<Z3_ast> as;
  as.reserve(pc.size() + 1);
  auto lit = [&](Ex c) {
    if (!c->lit) {
      Z3_ast p = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, c->id), Z3_mk_bool_sort(ctx));
      Z3_inc_ref(ctx, p);
      Z3_solver_assert(ctx, s, Z3_mk_implies(ctx, p, boolean(c)));
      c->lit = p;
      litExprs.push_back(c);
      nlits++;
    }
    as.push_back((Z3_ast)c->lit);
  };
  for (Ex c : pc) lit(c);
  if (extra) lit(extra);
  Z3_lbool r = Z3_solver_check_assumptions(ctx, s, as.size(), as.data());
  if (r == Z3_L_TRUE && m) {
    Z3_model zm = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, zm);
    m->assign(g_vars.size(), 0);
    unsigned n = Z3_model_get_num_consts(ctx, zm);
    static std::unordered_map<std::string, uint32_t> idx;
    if (idx.size() != g_vars.size())
      for (uint32_t i = idx.size(); i < g_vars.size(); i++) idx[g_vars[i].name] = i;
    for (unsigned i = 0; i < n; i++) {
      Z3_func_decl d = Z3_model_get_const_decl(ctx, zm, i);
      Z3_symbol sy = Z3_get_decl_name(ctx, d);
      if (Z3_get_symbol_kind(ctx, sy) != Z3_STRING_SYMBOL) continue;
      auto it = idx.find(Z3_get_symbol_string(ctx, sy));
      if (it == idx.end()) continue;
      Z3_ast v = Z3_model_get_const_interp(ctx, zm, d);
      uint64_t u = 0;
      if (v) { Z3_inc_ref(ctx, v); Z3_get_numeral_uint64(ctx, v, &u); Z3_dec_ref(ctx, v); }
      (*m)[it->second] = u;
    }
    Z3_model_dec_ref(ctx, zm);
  }
  st.queries++;
  if (getenv("SYMEX_DUMPALL")) {
    static int n = 0;
    std::string f = std::string(getenv("SYMEX_DUMPALL")) + "/a" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2";
    FILE *o = fopen(f.c_str(), "w");
    if (o) { fprintf(o, "; answer %d time %.3f\n%s", (int)r, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(), dump(pc, extra).c_str()); fclose(o); }
  }
  st.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (r == Z3_L_TRUE) { st.sat++; return 1; }
  if (r == Z3_L_FALSE) { st.unsat++; return 0; }
  st.unknown++;
  return -1;
}
// SMT-LIB2 text of a query (for the cross-check with other solvers)
static void smtE(Ex e, std::ostringstream &o, std::unordered_set<Ex> &seen, bool &any);
static std::string ref(Ex e) {
  if (e->k == K_CONST) return "(_ bv" + std::to_string(e->val) + " " + std::to_string(e->w) + ")";
  if (e->k == K_VAR) return "|" + g_vars[e->val].name + "|";
  return "e" + std::to_string(e->id);
}
static void smtE(Ex e, std::ostringstream &o, std::unordered_set<Ex> &seen, bool &any) {
  if (e->k == K_CONST || seen.count(e)) return;
  seen.insert(e);
  if (e->k == K_VAR) { o << "(declare-const " << ref(e) << " (_ BitVec " << (int)e->w << "))\n"; return; }
  for (Ex x : {e->a, e->b, e->c}) if (x) smtE(x, o, seen, any);
  static const char *nm[] = {"","","bvadd","bvsub","bvmul","bvudiv","bvsdiv","bvurem","bvsrem","bvand","bvor","bvxor",
    "bvshl","bvlshr","bvashr","=","bvult","bvslt","ite","zero_extend","sign_extend","extract","concat"};
  o << "(define-fun " << ref(e) << " () (_ BitVec " << (int)e->w << ") ";
  switch (e->k) {
  case K_EQ: case K_ULT: case K_SLT:
    o << "(ite (" << nm[e->k] << " " << ref(e->a) << " " << ref(e->b) << ") #b1 #b0)"; break;
  case K_ITE: o << "(ite (= " << ref(e->a) << " #b1) " << ref(e->b) << " " << ref(e->c) << ")"; break;
  case K_ZEXT: case K_SEXT: o << "((_ " << nm[e->k] << " " << (int)(e->w - e->a->w) << ") " << ref(e->a) << ")"; break;
  case K_EXTRACT: o << "((_ extract " << e->val + e->w - 1 << " " << e->val << ") " << ref(e->a) << ")"; break;
  default: o << "(" << nm[e->k] << " " << ref(e->a) << " " << ref(e->b) << ")";
  }
  o << ")\n";
}
std::string Solver::dump(const std::vector<Ex> &pc, Ex extra) {
  std::ostringstream o;
  o << "(set-logic QF_BV)\n";
  std::unordered_set<Ex> seen;
  bool any = false;
  std::vector<Ex> all = pc;
  if (extra) all.push_back(extra);
  for (Ex c : all) { smtE(c, o, seen, any); }
  for (Ex c : all) o << "(assert (= " << ref(c) << " #b1))\n";
  o << "(check-sat)\n";
  return o.str();
}

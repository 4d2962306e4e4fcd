#include "expr.h"
#include <algorithm>
#include <set>

std::unordered_map<ExprKey, Expr*, ExprKeyHash> g_exprs;
std::vector<Expr*> g_byId;
static std::set<VarSet> g_varsets;
static const VarSet* g_empty = &*g_varsets.insert(VarSet()).first;

static const VarSet* unionVars(const VarSet* a, const VarSet* b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    VarSet r;
    r.reserve(a->size() + b->size());
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    if (r.size() == a->size()) return a;
    if (r.size() == b->size()) return b;
    return &*g_varsets.insert(std::move(r)).first;
}


// interval bounds, computed once per node from the children's bounds
static void ranges(Expr* e) {
    unsigned w = e->w;
    e->ulo = 0; e->uhi = mask(w);
    int64_t tmin = w >= 64 ? INT64_MIN : -(1ll << (w - 1)), tmax = w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1;
    e->slo = tmin; e->shi = tmax;
    E a = e->k[0], b = e->k[1], c = e->k[2];
    switch (e->op) {
        case CONST: e->ulo = e->uhi = e->v; e->slo = e->shi = sx(e->v, w); return;
        case ZEXT: e->ulo = a->ulo; e->uhi = a->uhi; e->slo = (int64_t)a->ulo; e->shi = (int64_t)a->uhi; return;
        case SEXT:
            e->slo = a->slo; e->shi = a->shi;
            if (a->slo >= 0) { e->ulo = (uint64_t)a->slo; e->uhi = (uint64_t)a->shi; }
            return;
        case AND: e->uhi = std::min(a->uhi, b->uhi); break;
        case LSHR: if (isC(b) && b->v < w) { e->ulo = a->ulo >> b->v; e->uhi = a->uhi >> b->v; } break;
        case UDIV: if (isC(b) && b->v) { e->ulo = a->ulo / b->v; e->uhi = a->uhi / b->v; } break;
        case UREM: if (isC(b) && b->v) e->uhi = std::min(a->uhi, b->v - 1); break;
        case CONCAT: e->ulo = (a->ulo << b->w) | b->ulo; e->uhi = (a->uhi << b->w) | b->uhi; break;
        case ITE:
            e->ulo = std::min(b->ulo, c->ulo); e->uhi = std::max(b->uhi, c->uhi);
            e->slo = std::min(b->slo, c->slo); e->shi = std::max(b->shi, c->shi);
            return;
        case ADD: case SUB: case MUL: {
            __int128 x[4];
            if (e->op == ADD) { x[0] = x[2] = (__int128)a->slo + b->slo; x[1] = x[3] = (__int128)a->shi + b->shi; }
            else if (e->op == SUB) { x[0] = x[2] = (__int128)a->slo - b->shi; x[1] = x[3] = (__int128)a->shi - b->slo; }
            else { x[0] = (__int128)a->slo * b->slo; x[1] = (__int128)a->slo * b->shi; x[2] = (__int128)a->shi * b->slo; x[3] = (__int128)a->shi * b->shi; }
            __int128 mn = x[0], mx = x[0];
            for (int i = 1; i < 4; i++) { if (x[i] < mn) mn = x[i]; if (x[i] > mx) mx = x[i]; }
            if (mn >= tmin && mx <= tmax) { e->slo = (int64_t)mn; e->shi = (int64_t)mx; }
            if (e->op == ADD && (unsigned __int128)a->uhi + b->uhi <= mask(w)) { e->ulo = a->ulo + b->ulo; e->uhi = a->uhi + b->uhi; }
            if (e->op == MUL && (unsigned __int128)a->uhi * b->uhi <= mask(w)) { e->ulo = a->ulo * b->ulo; e->uhi = a->uhi * b->uhi; }
            if (e->slo >= 0 && mn >= tmin && mx <= tmax) { e->ulo = std::max(e->ulo, (uint64_t)e->slo); e->uhi = std::min(e->uhi, (uint64_t)e->shi); }
            break;
        }
        default: break;
    }
    if (e->uhi <= (uint64_t)tmax) { e->slo = std::max(e->slo, (int64_t)e->ulo); e->shi = std::min(e->shi, (int64_t)e->uhi); }
}

static E mk(Op op, unsigned w, uint64_t v, E a = nullptr, E b = nullptr, E c = nullptr) {
    ExprKey key{op, (uint8_t)w, v, {a, b, c}};
    auto it = g_exprs.find(key);
    if (it != g_exprs.end()) return it->second;
    Expr* e = new Expr();
    e->op = op; e->w = (uint8_t)w; e->v = v;
    e->k[0] = a; e->k[1] = b; e->k[2] = c;
    e->id = (uint32_t)g_byId.size();
    e->zbv = e->zbool = nullptr;
    e->uninit = false;
    e->vars = g_empty;
    for (int i = 0; i < 3; i++)
        if (e->k[i]) {
            e->vars = unionVars(e->vars, e->k[i]->vars);
            e->uninit = e->uninit || e->k[i]->uninit;
        }
    ranges(e);
    g_byId.push_back(e);
    g_exprs.emplace(key, e);
    return e;
}

E mkConst(uint64_t v, unsigned w) { return mk(CONST, w, v & mask(w)); }
E mkVar(uint32_t idx, bool uninit) {
    Expr* e = const_cast<Expr*>(mk(VAR, 8, idx));
    if (e->vars->empty()) {
        e->vars = &*g_varsets.insert(VarSet{idx}).first;
        e->uninit = uninit;
    }
    return e;
}

uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
    uint64_t m = mask(w);
    switch (op) {
        case ADD: return (a + b) & m;
        case SUB: return (a - b) & m;
        case MUL: return (a * b) & m;
        case UDIV: return b ? (a / b) & m : m;
        case UREM: return b ? (a % b) & m : a;
        case SDIV: {
            int64_t x = sx(a, w), y = sx(b, w);
            if (!y) return (x < 0 ? 1 : m);
            if (y == -1) return (uint64_t)(-(uint64_t)x) & m;
            return (uint64_t)(x / y) & m;
        }
        case SREM: {
            int64_t x = sx(a, w), y = sx(b, w);
            if (!y) return a;
            if (y == -1) return 0;
            return (uint64_t)(x % y) & m;
        }
        case AND: return a & b;
        case OR: return a | b;
        case XOR: return a ^ b;
        case SHL: return b >= w ? 0 : (a << b) & m;
        case LSHR: return b >= w ? 0 : (a >> b);
        case ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
        case EQ: return a == b;
        case ULT: return a < b;
        case ULE: return a <= b;
        case SLT: return sx(a, w) < sx(b, w);
        case SLE: return sx(a, w) <= sx(b, w);
        default: abort();
    }
}

E mkNot(E a) {
    if (isC(a)) return mkConst(!a->v, 1);
    if (a->op == XOR && isC(a->k[1])) return a->k[0]; // not not
    return mk(XOR, 1, 0, a, mkConst(1, 1));
}

E mkBin(Op op, E a, E b) {
    unsigned w = a->w;
    bool cmp = op >= EQ && op <= SLE;
    unsigned rw = cmp ? 1 : w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d vs %d\n", op, a->w, b->w); abort(); }
    if (isC(a) && isC(b)) return mkConst(foldBin(op, a->v, b->v, w), rw);
    bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    if (op == SUB && isC(b)) return mkBin(ADD, a, mkConst(-b->v, w));
    uint64_t c = isC(b) ? b->v : 0;
    bool cb = isC(b);
    switch (op) {
        case ADD:
            if (cb && c == 0) return a;
            if (cb && a->op == ADD && isC(a->k[1])) return mkBin(ADD, a->k[0], mkConst(a->k[1]->v + c, w));
            break;
        case SUB:
            if (a == b) return mkConst(0, w);
            break;
        case MUL:
            if (cb && c == 0) return b;
            if (cb && c == 1) return a;
            break;
        case AND:
            if (cb && c == 0) return b;
            if (cb && c == mask(w)) return a;
            if (a == b) return a;
            if (cb && a->op == ZEXT && c == mask(a->k[0]->w)) return a;
            break;
        case OR:
            if (cb && c == 0) return a;
            if (cb && c == mask(w)) return b;
            if (a == b) return a;
            break;
        case XOR:
            if (cb && c == 0) return a;
            if (a == b) return mkConst(0, w);
            if (cb && a->op == XOR && isC(a->k[1])) return mkBin(XOR, a->k[0], mkConst(a->k[1]->v ^ c, w));
            break;
        case SHL: case LSHR: case ASHR:
            if (cb && c == 0) return a;
            break;
        case UDIV: case SDIV:
            if (cb && c == 1) return a;
            break;
        case EQ:
            if (a == b) return mkConst(1, 1);
            if (a->uhi < b->ulo || b->uhi < a->ulo || a->shi < b->slo || b->shi < a->slo) return mkConst(0, 1);
            if (w == 1 && cb) return c ? a : mkNot(a);
            if (cb) {
                if (a->op == ZEXT) {
                    if (c > mask(a->k[0]->w)) return mkConst(0, 1);
                    return mkBin(EQ, a->k[0], mkConst(c, a->k[0]->w));
                }
                if (a->op == SEXT) {
                    uint64_t t = c & mask(a->k[0]->w);
                    if ((uint64_t)(sx(t, a->k[0]->w)) != (uint64_t)sx(c, w)) return mkConst(0, 1);
                    return mkBin(EQ, a->k[0], mkConst(t, a->k[0]->w));
                }
                if (a->op == ADD && isC(a->k[1])) return mkBin(EQ, a->k[0], mkConst(c - a->k[1]->v, w));
                if (a->op == XOR && isC(a->k[1])) return mkBin(EQ, a->k[0], mkConst(c ^ a->k[1]->v, w));
                if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) {
                    bool p = a->k[1]->v == c, q = a->k[2]->v == c;
                    if (p && q) return mkConst(1, 1);
                    if (p) return a->k[0];
                    if (q) return mkNot(a->k[0]);
                    return mkConst(0, 1);
                }
                if (a->op == OR && c == 0) return mkBin(AND, mkBin(EQ, a->k[0], b), mkBin(EQ, a->k[1], b));
                if (a->op == CONCAT) {
                    unsigned lw = a->k[1]->w;
                    return mkBin(AND, mkBin(EQ, a->k[0], mkConst(c >> lw, a->k[0]->w)), mkBin(EQ, a->k[1], mkConst(c, lw)));
                }
            }
            if ((a->op == ZEXT && b->op == ZEXT || a->op == SEXT && b->op == SEXT) && a->k[0]->w == b->k[0]->w) return mkBin(EQ, a->k[0], b->k[0]);
            break;
        case ULT: case ULE: {
            if (a == b) return mkConst(op == ULE, 1);
            Range ra = urange(a), rb = urange(b);
            if (op == ULT) {
                if (ra.hi < rb.lo) return mkConst(1, 1);
                if (ra.lo >= rb.hi) return mkConst(0, 1);
            } else {
                if (ra.hi <= rb.lo) return mkConst(1, 1);
                if (ra.lo > rb.hi) return mkConst(0, 1);
            }
            if (a->op == ZEXT && cb && c <= mask(a->k[0]->w)) return mkBin(op, a->k[0], mkConst(c, a->k[0]->w));
            if (b->op == ZEXT && isC(a) && a->v <= mask(b->k[0]->w)) return mkBin(op, mkConst(a->v, b->k[0]->w), b->k[0]);
            if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
            break;
        }
        case SLT: case SLE: {
            if (a == b) return mkConst(op == SLE, 1);
            int64_t a0, a1, b0, b1;
            srangeOf(a, a0, a1);
            srangeOf(b, b0, b1);
            if (op == SLT) {
                if (a1 < b0) return mkConst(1, 1);
                if (a0 >= b1) return mkConst(0, 1);
            } else {
                if (a1 <= b0) return mkConst(1, 1);
                if (a0 > b1) return mkConst(0, 1);
            }
            if (a->op == ZEXT && cb && sx(c, w) >= 0 && c <= mask(a->k[0]->w)) return mkBin(op == SLT ? ULT : ULE, a->k[0], mkConst(c, a->k[0]->w));
            if (b->op == ZEXT && isC(a) && sx(a->v, w) >= 0 && a->v <= mask(b->k[0]->w)) return mkBin(op == SLT ? ULT : ULE, mkConst(a->v, b->k[0]->w), b->k[0]);
            if (a->op == SEXT && cb && (uint64_t)sx(c & mask(a->k[0]->w), a->k[0]->w) == (uint64_t)sx(c, w)) return mkBin(op, a->k[0], mkConst(c, a->k[0]->w));
            if (b->op == SEXT && isC(a) && (uint64_t)sx(a->v & mask(b->k[0]->w), b->k[0]->w) == (uint64_t)sx(a->v, w)) return mkBin(op, mkConst(a->v, b->k[0]->w), b->k[0]);
            if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
            break;
        }
        default: break;
    }
    return mk(op, rw, 0, a, b);
}

E mkExtract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    switch (a->op) {
        case CONST: return mkConst(a->v >> lo, w);
        case EXTRACT: return mkExtract(a->k[0], lo + (unsigned)a->v, w);
        case CONCAT: {
            unsigned lw = a->k[1]->w;
            if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
            if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
            return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
        }
        case ZEXT: {
            unsigned iw = a->k[0]->w;
            if (lo >= iw) return mkConst(0, w);
            if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
            return mkZext(mkExtract(a->k[0], lo, iw - lo), w);
        }
        case SEXT: {
            unsigned iw = a->k[0]->w;
            if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
            if (lo == 0) return mkSext(a->k[0], w);
            break;
        }
        case ITE:
            if (isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
            break;
        case AND: case OR: case XOR:
            return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        case ADD: case SUB: case MUL:
            if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
            break;
        default: break;
    }
    return mk(EXTRACT, w, lo, a);
}

E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return mkConst((hi->v << lo->w) | lo->v, w);
    if (isC(hi) && hi->v == 0) return mkZext(lo, w);
    // extract(x, l+n, m) . extract(x, l, n) -> extract(x, l, m+n)
    E hx = hi, lx = lo;
    if (hx->op == EXTRACT) {
        if (lx->op == EXTRACT && hx->k[0] == lx->k[0] && hx->v == lx->v + lx->w) return mkExtract(hx->k[0], (unsigned)lx->v, w);
        if (lx == hx->k[0] && false) return nullptr;
        // low part was folded into the operand itself (e.g. extract of a zext)
    }
    if (lo->op == CONCAT && hi->op == EXTRACT && lo->k[0]->op == EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->v == lo->k[0]->v + lo->k[0]->w)
        return mkConcat(mkExtract(hi->k[0], (unsigned)lo->k[0]->v, hi->w + lo->k[0]->w), lo->k[1]);
    return mk(CONCAT, w, 0, hi, lo);
}

E mkZext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return mkConst(a->v, w);
    if (a->op == ZEXT) return mkZext(a->k[0], w);
    if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->v, w), mkConst(a->k[2]->v, w));
    return mk(ZEXT, w, 0, a);
}
E mkSext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return mkConst((uint64_t)sx(a->v, a->w), w);
    if (a->op == SEXT) return mkSext(a->k[0], w);
    if (a->op == ZEXT) return mkZext(a->k[0], w);
    return mk(SEXT, w, 0, a);
}
E mkIte(E c, E a, E b) {
    if (isC(c)) return c->v ? a : b;
    if (a == b) return a;
    if (a->w == 1 && isC(a) && isC(b)) return a->v ? c : mkNot(c);
    if (a->w == 1 && isC(a)) return a->v ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
    if (a->w == 1 && isC(b)) return b->v ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
    return mk(ITE, a->w, 0, c, a, b);
}
E mkUn(Op op, E a, unsigned w) { return mk(op, w, 0, a); }

static std::vector<uint64_t> memoVal;
static std::vector<uint32_t> memoStamp;
static uint32_t stamp = 0;

static uint64_t ev(E e, const Model& m) {
    if (e->op == CONST) return e->v;
    if (e->op == VAR) return e->v < m.size() ? m[e->v] : 0;
    if (memoStamp[e->id] == stamp) return memoVal[e->id];
    uint64_t r;
    switch (e->op) {
        case EXTRACT: r = (ev(e->k[0], m) >> e->v) & mask(e->w); break;
        case CONCAT: r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
        case ZEXT: r = ev(e->k[0], m); break;
        case SEXT: r = (uint64_t)sx(ev(e->k[0], m), e->k[0]->w) & mask(e->w); break;
        case ITE: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
        case FPTRUNC: {
            uint64_t x = ev(e->k[0], m); double d; memcpy(&d, &x, 8);
            float f = (float)d; uint32_t y; memcpy(&y, &f, 4); r = y; break;
        }
        case FPEXT: {
            uint32_t x = (uint32_t)ev(e->k[0], m); float f; memcpy(&f, &x, 4);
            double d = f; memcpy(&r, &d, 8); break;
        }
        default: r = foldBin(e->op, ev(e->k[0], m), ev(e->k[1], m), e->k[0]->w); break;
    }
    memoStamp[e->id] = stamp;
    memoVal[e->id] = r;
    return r;
}
uint64_t evalExpr(E e, const Model& m) {
    if (memoStamp.size() < g_byId.size()) {
        memoStamp.resize(g_byId.size() * 2 + 1024, 0);
        memoVal.resize(memoStamp.size());
    }
    stamp++;
    if (!stamp) { std::fill(memoStamp.begin(), memoStamp.end(), 0); stamp = 1; }
    return ev(e, m);
}

// z3 frees an unreferenced term at the next API call: whatever is not cached on an Expr is referenced here, for good
#define KEEP(x) ([&] { Z3_ast t_ = (x); Z3_inc_ref(c, t_); return t_; }())
static Z3_sort bvSort(Z3_context c, unsigned w) {
    static Z3_sort t[65];
    if (!t[w]) { t[w] = Z3_mk_bv_sort(c, w); Z3_inc_ref(c, Z3_sort_to_ast(c, t[w])); }
    return t[w];
}
static Z3_sort fpSort(Z3_context c, int w) {
    static Z3_sort t[2];
    Z3_sort& s = t[w == 64];
    if (!s) { s = w == 64 ? Z3_mk_fpa_sort_64(c) : Z3_mk_fpa_sort_32(c); Z3_inc_ref(c, Z3_sort_to_ast(c, s)); }
    return s;
}
static Z3_ast bit(Z3_context c, int v) {
    static Z3_ast t[2];
    if (!t[v]) t[v] = KEEP(Z3_mk_unsigned_int64(c, v, bvSort(c, 1)));
    return t[v];
}

Z3_ast toBool(Z3_context c, E e0) {
    Expr* e = const_cast<Expr*>(e0);
    if (e->zbool) return e->zbool;
    Z3_ast r;
    switch (e->op) {
        case CONST: r = e->v ? Z3_mk_true(c) : Z3_mk_false(c); break;
        case EQ:
            if (e->k[0]->w == 1) r = Z3_mk_eq(c, toBool(c, e->k[0]), toBool(c, e->k[1]));
            else r = Z3_mk_eq(c, toBV(c, e->k[0]), toBV(c, e->k[1]));
            break;
        case ULT: r = Z3_mk_bvult(c, toBV(c, e->k[0]), toBV(c, e->k[1])); break;
        case ULE: r = Z3_mk_bvule(c, toBV(c, e->k[0]), toBV(c, e->k[1])); break;
        case SLT: r = Z3_mk_bvslt(c, toBV(c, e->k[0]), toBV(c, e->k[1])); break;
        case SLE: r = Z3_mk_bvsle(c, toBV(c, e->k[0]), toBV(c, e->k[1])); break;
        case AND: { Z3_ast a[2] = {toBool(c, e->k[0]), toBool(c, e->k[1])}; r = Z3_mk_and(c, 2, a); break; }
        case OR: { Z3_ast a[2] = {toBool(c, e->k[0]), toBool(c, e->k[1])}; r = Z3_mk_or(c, 2, a); break; }
        case XOR: r = Z3_mk_xor(c, toBool(c, e->k[0]), toBool(c, e->k[1])); break;
        case ITE: r = Z3_mk_ite(c, toBool(c, e->k[0]), toBool(c, e->k[1]), toBool(c, e->k[2])); break;
        default: r = Z3_mk_eq(c, toBV(c, e), bit(c, 1)); break;
    }
    Z3_inc_ref(c, r);
    e->zbool = r;
    return r;
}

Z3_ast toBV(Z3_context c, E e0) {
    Expr* e = const_cast<Expr*>(e0);
    if (e->zbv) return e->zbv;
    Z3_ast r;
    bool logic1 = e->w == 1 && (e->op == EQ || e->op == ULT || e->op == ULE || e->op == SLT || e->op == SLE ||
                                e->op == AND || e->op == OR || e->op == XOR);
    if (logic1) {
        r = Z3_mk_ite(c, toBool(c, e), bit(c, 1), bit(c, 0));
    } else {
        auto A = [&](int i) { return toBV(c, e->k[i]); };
        switch (e->op) {
            case CONST: r = Z3_mk_unsigned_int64(c, e->v, bvSort(c, e->w)); break;
            case VAR: r = Z3_mk_const(c, Z3_mk_int_symbol(c, (int)e->v), bvSort(c, 8)); break;
            case ADD: r = Z3_mk_bvadd(c, A(0), A(1)); break;
            case SUB: r = Z3_mk_bvsub(c, A(0), A(1)); break;
            case MUL: r = Z3_mk_bvmul(c, A(0), A(1)); break;
            case UDIV: r = Z3_mk_bvudiv(c, A(0), A(1)); break;
            case SDIV: r = Z3_mk_bvsdiv(c, A(0), A(1)); break;
            case UREM: r = Z3_mk_bvurem(c, A(0), A(1)); break;
            case SREM: r = Z3_mk_bvsrem(c, A(0), A(1)); break;
            case AND: r = Z3_mk_bvand(c, A(0), A(1)); break;
            case OR: r = Z3_mk_bvor(c, A(0), A(1)); break;
            case XOR: r = Z3_mk_bvxor(c, A(0), A(1)); break;
            case SHL: r = Z3_mk_bvshl(c, A(0), A(1)); break;
            case LSHR: r = Z3_mk_bvlshr(c, A(0), A(1)); break;
            case ASHR: r = Z3_mk_bvashr(c, A(0), A(1)); break;
            case CONCAT: r = Z3_mk_concat(c, A(0), A(1)); break;
            case EXTRACT: r = Z3_mk_extract(c, (unsigned)e->v + e->w - 1, (unsigned)e->v, A(0)); break;
            case ZEXT: r = Z3_mk_zero_ext(c, e->w - e->k[0]->w, A(0)); break;
            case SEXT: r = Z3_mk_sign_ext(c, e->w - e->k[0]->w, A(0)); break;
            case ITE: r = Z3_mk_ite(c, toBool(c, e->k[0]), A(1), A(2)); break;
            case FPTRUNC:
                r = Z3_mk_fpa_to_ieee_bv(c, KEEP(Z3_mk_fpa_to_fp_float(c, KEEP(Z3_mk_fpa_rne(c)), KEEP(Z3_mk_fpa_to_fp_bv(c, A(0), fpSort(c, 64))), fpSort(c, 32))));
                break;
            case FPEXT:
                r = Z3_mk_fpa_to_ieee_bv(c, KEEP(Z3_mk_fpa_to_fp_float(c, KEEP(Z3_mk_fpa_rne(c)), KEEP(Z3_mk_fpa_to_fp_bv(c, A(0), fpSort(c, 32))), fpSort(c, 64))));
                break;
            default: fprintf(stderr, "toBV: op %d\n", e->op); abort();
        }
    }
    Z3_inc_ref(c, r);
    e->zbv = r;
    return r;
}

std::string show(E e, int depth) {
    static const char* N[] = {"const", "var", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>u", ">>s", "==", "u<", "u<=", "s<", "s<=", "concat", "extract", "zext", "sext", "ite", "fptrunc", "fpext"};
    char b[64];
    if (e->op == CONST) { snprintf(b, sizeof b, "%lld", (long long)sx(e->v, e->w)); return b; }
    if (e->op == VAR) { snprintf(b, sizeof b, "b%llu", (unsigned long long)e->v); return b; }
    if (!depth) return "...";
    std::string s = std::string("(") + N[e->op];
    for (int i = 0; i < 3 && e->k[i]; i++) s += " " + show(e->k[i], depth - 1);
    return s + ")";
}

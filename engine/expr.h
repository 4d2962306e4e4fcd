// Hash-consed bit-vector expressions (width 1..64), constant folding, z3 translation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

enum Op : uint8_t {
    CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE, CONCAT, EXTRACT, ZEXT, SEXT, ITE, FPTRUNC, FPEXT
};

typedef std::vector<uint32_t> VarSet; // sorted

struct Expr {
    Op op;
    uint8_t w;
    bool uninit; // depends on an uninitialised byte
    uint32_t id;
    uint64_t v; // constant value / variable index / extract low bit
    const Expr* k[3];
    const VarSet* vars;
    uint64_t ulo, uhi; // unsigned range
    int64_t slo, shi;  // signed range
    Z3_ast zbv, zbool;
};
typedef const Expr* E;

static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= mask(w);
    return (int64_t)((v ^ m) - m);
}

struct ExprKey {
    Op op; uint8_t w; uint64_t v; E k[3];
    bool operator==(const ExprKey& o) const {
        return op == o.op && w == o.w && v == o.v && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2];
    }
};
struct ExprKeyHash {
    size_t operator()(const ExprKey& x) const {
        uint64_t h = x.op * 0x9E3779B97F4A7C15ull + x.w;
        auto mix = [&](uint64_t y) { h ^= y + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
        mix(x.v);
        for (int i = 0; i < 3; i++) mix(x.k[i] ? x.k[i]->id + 1 : 0);
        return h;
    }
};

extern std::unordered_map<ExprKey, Expr*, ExprKeyHash> g_exprs;
extern std::vector<Expr*> g_byId;

E mkConst(uint64_t v, unsigned w);
E mkVar(uint32_t idx, bool uninit); // one byte
E mkBin(Op op, E a, E b);
E mkNot(E a); // width 1
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkUn(Op op, E a, unsigned w);
static inline bool isC(E e) { return e->op == CONST; }

struct Range { uint64_t lo, hi; }; // unsigned range
static inline Range urange(E e) { return {e->ulo, e->uhi}; }
static inline void srangeOf(E e, int64_t& lo, int64_t& hi) { lo = e->slo; hi = e->shi; }

typedef std::vector<uint8_t> Model; // by variable index; missing = 0
uint64_t evalExpr(E e, const Model& m);

Z3_ast toBV(Z3_context c, E e);
Z3_ast toBool(Z3_context c, E e);
uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w);
std::string show(E e, int depth = 6);

// Hash-consed bit-vector expressions over symbolic input bytes.
// An expression whose support is a single byte is kept as its 256-entry value
// table (canonical form); everything else is a DAG handed to z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3++.h>

enum EOp : uint8_t {
  E_CONST, E_SYM, E_TAB,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR,
  E_AND, E_OR, E_XOR,
  E_EQ, E_NE, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ZEXT, E_SEXT, E_EXTRACT, // EXTRACT: c = bit offset, width = result width
  E_ITE
};

struct Expr {
  uint8_t op, width, nk;
  bool unary;
  uint8_t sym;              // unary: which byte
  uint64_t support;
  uint64_t c;
  const Expr *k[3];
  const uint64_t *tab;      // unary: value for each of the 256 byte values
  uint32_t id;
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ULL << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

// evaluation of one operator on concrete values (w = operand width, rw = result width)
static inline uint64_t evalOp(uint8_t op, unsigned rw, unsigned w, uint64_t a, uint64_t b, uint64_t d, uint64_t c) {
  switch (op) {
  case E_ADD: return (a + b) & maskw(rw);
  case E_SUB: return (a - b) & maskw(rw);
  case E_MUL: return (a * b) & maskw(rw);
  case E_UDIV: return b ? (a / b) & maskw(rw) : maskw(rw);
  case E_UREM: return b ? (a % b) & maskw(rw) : a;
  case E_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return maskw(rw); if (y == -1) return (0 - (uint64_t)x) & maskw(rw); return (uint64_t)(x / y) & maskw(rw); }
  case E_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & maskw(rw); }
  case E_SHL: return b >= w ? 0 : (a << b) & maskw(rw);
  case E_LSHR: return b >= w ? 0 : (a >> b) & maskw(rw);
  case E_ASHR: { int64_t x = sextw(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & maskw(rw); }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_EQ: return a == b;
  case E_NE: return a != b;
  case E_ULT: return a < b;
  case E_ULE: return a <= b;
  case E_SLT: return sextw(a, w) < sextw(b, w);
  case E_SLE: return sextw(a, w) <= sextw(b, w);
  case E_ZEXT: return a;
  case E_SEXT: return (uint64_t)sextw(a, w) & maskw(rw);
  case E_EXTRACT: return (a >> c) & maskw(rw);
  case E_ITE: return (a & 1) ? b : d;
  }
  return 0;
}

struct EKey {
  uint8_t op, width; uint64_t c; const Expr *k0, *k1, *k2;
  bool operator==(const EKey &o) const { return op == o.op && width == o.width && c == o.c && k0 == o.k0 && k1 == o.k1 && k2 == o.k2; }
};
struct EKeyHash {
  size_t operator()(const EKey &k) const {
    uint64_t h = k.op * 0x9E3779B97F4A7C15ULL + k.width;
    auto mix = [&](uint64_t v) { h ^= v; h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; };
    mix(k.c); mix((uint64_t)k.k0); mix((uint64_t)k.k1); mix((uint64_t)k.k2);
    return h;
  }
};

class ExprPool {
public:
  std::unordered_map<EKey, const Expr *, EKeyHash> memo;
  std::unordered_multimap<uint64_t, const Expr *> tabs;
  const Expr *syms[64];
  uint32_t nextId = 0;
  ExprPool() {
    memset(syms, 0, sizeof syms);
    for (int i = 0; i < 64; i++) {
      uint64_t t[256];
      for (int v = 0; v < 256; v++) t[v] = v;
      syms[i] = internTab(i, 8, t, E_SYM, 0, nullptr, nullptr, nullptr);
    }
  }
  const Expr *mkConst(uint64_t v, unsigned w) {
    EKey key{E_CONST, (uint8_t)w, v & maskw(w), nullptr, nullptr, nullptr};
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    Expr *e = new Expr{};
    e->op = E_CONST; e->width = w; e->c = v & maskw(w); e->id = nextId++;
    memo[key] = e;
    return e;
  }
  // table expression (from a load at a symbolic index or from operators on one byte)
  const Expr *internTab(unsigned sym, unsigned w, const uint64_t *t, uint8_t op, uint64_t c,
                        const Expr *a, const Expr *b, const Expr *d) {
    bool same = true;
    for (int i = 1; i < 256 && same; i++) same = t[i] == t[0];
    if (same) return mkConst(t[0], w);
    uint64_t h = sym * 1315423911ULL + w;
    for (int i = 0; i < 256; i++) { h ^= t[i]; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29; }
    auto r = tabs.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
      const Expr *e = it->second;
      if (e->sym == sym && e->width == w && !memcmp(e->tab, t, 2048)) return e;
    }
    Expr *e = new Expr{};
    uint64_t *tt = new uint64_t[256];
    memcpy(tt, t, 2048);
    e->op = op; e->width = w; e->unary = true; e->sym = sym; e->support = 1ULL << sym;
    e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->nk = a ? (b ? (d ? 3 : 2) : 1) : 0;
    e->tab = tt; e->id = nextId++;
    tabs.emplace(h, e);
    return e;
  }
  const Expr *mk(uint8_t op, unsigned w, const Expr *a, const Expr *b = nullptr, const Expr *d = nullptr, uint64_t c = 0) {
    // cheap identities on multi-byte terms
    if (op == E_EXTRACT && c == 0 && a->width == w) return a;
    if ((op == E_ZEXT || op == E_SEXT) && a->width == w) return a;
    if (op == E_ITE && a->op == E_CONST) return (a->c & 1) ? b : d;
    if (op == E_ITE && b == d) return b;
    EKey key{op, (uint8_t)w, c, a, b, d};
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    const Expr *r = build(op, w, a, b, d, c);
    memo[key] = r;
    return r;
  }
private:
  const Expr *build(uint8_t op, unsigned w, const Expr *a, const Expr *b, const Expr *d, uint64_t c) {
    uint64_t sup = a->support | (b ? b->support : 0) | (d ? d->support : 0);
    unsigned ow = (op == E_ITE) ? w : a->width;
    if (!sup) return mkConst(evalOp(op, w, ow, a->c, b ? b->c : 0, d ? d->c : 0, c), w);
    if ((sup & (sup - 1)) == 0) {
      unsigned sym = __builtin_ctzll(sup);
      uint64_t t[256];
      for (int i = 0; i < 256; i++) {
        uint64_t x = a->tab ? a->tab[i] : a->c, y = b ? (b->tab ? b->tab[i] : b->c) : 0, z = d ? (d->tab ? d->tab[i] : d->c) : 0;
        t[i] = evalOp(op, w, ow, x, y, z, c);
      }
      return internTab(sym, w, t, op, c, a, b, d);
    }
    // multi-byte simplifications
    auto isC = [](const Expr *e, uint64_t v) { return e && e->op == E_CONST && e->c == v; };
    switch (op) {
    case E_ADD: case E_OR: case E_XOR:
      if (isC(a, 0)) return b;
      if (isC(b, 0)) return a;
      break;
    case E_SUB: case E_SHL: case E_LSHR: case E_ASHR:
      if (isC(b, 0)) return a;
      if (op == E_SUB && a == b) return mkConst(0, w);
      break;
    case E_AND:
      if (isC(a, 0) || isC(b, 0)) return mkConst(0, w);
      if (isC(a, maskw(w))) return b;
      if (isC(b, maskw(w))) return a;
      break;
    case E_EQ: if (a == b) return mkConst(1, 1);
      if (a->width == 1 && isC(b, 1)) return a;
      if (a->op == E_ZEXT && b->op == E_CONST) { if (b->c > maskw(a->k[0]->width)) return mkConst(0, 1); return mk(E_EQ, 1, a->k[0], mkConst(b->c, a->k[0]->width)); }
      break;
    case E_NE: if (a == b) return mkConst(0, 1);
      if (a->width == 1 && isC(b, 0)) return a;
      if (a->op == E_ZEXT && b->op == E_CONST) { if (b->c > maskw(a->k[0]->width)) return mkConst(1, 1); return mk(E_NE, 1, a->k[0], mkConst(b->c, a->k[0]->width)); }
      break;
    case E_EXTRACT:
      if ((a->op == E_ZEXT || a->op == E_SEXT) && c + w <= a->k[0]->width) return mk(E_EXTRACT, w, a->k[0], nullptr, nullptr, c);
      if (a->op == E_ZEXT && c >= a->k[0]->width) return mkConst(0, w);
      if (a->op == E_EXTRACT) return mk(E_EXTRACT, w, a->k[0], nullptr, nullptr, c + a->c);
      break;
    case E_ZEXT: if (a->op == E_ZEXT) return mk(E_ZEXT, w, a->k[0]); break;
    }
    Expr *e = new Expr{};
    e->op = op; e->width = w; e->support = sup; e->c = c;
    e->k[0] = a; e->k[1] = b; e->k[2] = d; e->nk = d ? 3 : b ? 2 : 1;
    e->id = nextId++;
    return e;
  }
};

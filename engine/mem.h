#pragma once
#include "expr.h"
#include <memory>
#include <array>
#include <vector>
#include <string>

enum ValTag : uint8_t { T_UNDEF, T_INT, T_FP, T_SYM, T_AGG };
struct Val {
    ValTag t = T_UNDEF;
    bool fp = false;
    uint16_t w = 0;
    union { uint64_t c; double d; Expr* e; std::vector<Val>* a; };
    Val() : c(0) {}
};
inline Val vInt(uint64_t v, unsigned w) { Val x; x.t = T_INT; x.w = w; x.c = v & maskW(w); return x; }
inline Val vPtr(uint64_t v) { Val x; x.t = T_INT; x.w = 64; x.c = v; return x; }
inline Val vFP(double v, unsigned w) { Val x; x.t = T_FP; x.fp = true; x.w = w; x.d = v; return x; }
inline Val vUndef(bool fp, unsigned w) { Val x; x.fp = fp; x.w = w; return x; }
inline Val vAgg(std::vector<Val> v) { Val x; x.t = T_AGG; x.a = new std::vector<Val>(std::move(v)); return x; }
inline Val vE(Expr* e) {
    if (e->op == CONST_BV) return vInt(e->c, e->w);
    if (e->op == CONST_FP) return vFP(asD(e), e->w);
    Val x; x.t = T_SYM; x.fp = e->fp; x.w = e->w; x.e = e; return x;
}
inline Expr* toE(const Val& v) {
    if (v.t == T_INT) return mkBV(v.c, v.w);
    if (v.t == T_FP) return mkFP(v.d, v.w);
    if (v.t == T_SYM) return v.e;
    return nullptr;
}

enum ObjKind : uint8_t { OK_GLOBAL, OK_STACK, OK_NEW, OK_NEWARR, OK_MALLOC, OK_FUNC, OK_EXC };
struct SymCell { Expr* e; uint8_t k; };
struct Obj {
    uint64_t size = 0;
    ObjKind kind = OK_GLOBAL;
    bool alive = true, ro = false;
    std::vector<uint8_t> data, st;  // st: 0 undefined, 1 concrete, 2 symbolic
    std::vector<SymCell> sym;
    std::string name;
};
typedef std::shared_ptr<Obj> ObjP;
struct Chunk { std::array<ObjP, 64> o; int live = 0; };
typedef std::shared_ptr<Chunk> ChunkP;

struct Mem {
    std::vector<ChunkP> chunks;
    uint64_t next = 1;
    static ObjP tomb(ObjKind k) {
        static ObjP t[8];
        if (!t[k]) { t[k] = std::make_shared<Obj>(); t[k]->alive = false; t[k]->kind = k; }
        return t[k];
    }
    uint64_t add(ObjP o) {
        uint64_t id = next++;
        size_t c = id >> 6;
        if (c >= chunks.size()) chunks.push_back(std::make_shared<Chunk>());
        if (chunks[c].use_count() > 1) chunks[c] = std::make_shared<Chunk>(*chunks[c]);
        chunks[c]->o[id & 63] = o;
        chunks[c]->live++;
        return id << 32;
    }
    const Obj* get(uint64_t id) const {
        if (id == 0 || id >= next) return nullptr;
        return chunks[id >> 6]->o[id & 63].get();
    }
    Obj* getW(uint64_t id) {
        ChunkP& c = chunks[id >> 6];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        ObjP& o = c->o[id & 63];
        if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
        return o.get();
    }
    void kill(uint64_t id) {
        ChunkP& c = chunks[id >> 6];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        ObjP& o = c->o[id & 63];
        o = tomb(o->kind);
        if (--c->live == 0 && ((id >> 6) + 1) < (next >> 6)) {
            // whole chunk dead: share tomb chunks by dominant kind is not needed, keep tombs
        }
    }
};

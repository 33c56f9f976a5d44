// PowerPC instructions of the interpreter (ppc.py); included in the switch of run() in arm64.inc. Registers 56..63 are the
// condition register fields (8 less, 4 greater, 2 equal, 1 overflow/unordered), 55 the carry.
#define CRBIT(b) (X(56 + (b) / 4) >> (3 - (b) % 4) & 1)
        case P_ROT: { uint64_t a = X(p->rn); uint32_t n = p->kind ? p->amt : (uint32_t)X(p->rm); uint64_t v = p->kind ? xv[p->rn] : std::max(xv[p->rn], xv[p->rm]); if (w) n &= 63; else { a = (uint32_t)a; a |= a << 32; n &= 31; }
            a = n ? a << n | a >> (64 - n) : a; uint64_t m = (uint64_t)p->imm; if (p->x) { X(p->rd) = (X(p->rd) & ~m) | (a & m); up(xv[p->rd], v); } else { X(p->rd) = a & m; xv[p->rd] = v; } break; }
        case P_CMP: { uint64_t a = X(p->rn), b = p->kind ? (uint64_t)p->imm : X(p->rm); bool lt, gt; if (!w) { a = (uint32_t)a; b = (uint32_t)b; }
            if (p->fl & 2) { lt = a < b; gt = a > b; } else if (w) { lt = (int64_t)a < (int64_t)b; gt = (int64_t)a > (int64_t)b; } else { lt = (int32_t)a < (int32_t)b; gt = (int32_t)a > (int32_t)b; }
            uint64_t v = p->kind ? xv[p->rn] : std::max(xv[p->rn], xv[p->rm]); X(p->rd) = lt ? 8 : gt ? 4 : 2; xv[p->rd] = v; break; }
        case P_ADDC: { uint64_t a = X(p->rn), b = p->kind ? (uint64_t)p->imm : X(p->rm), v = p->kind ? xv[p->rn] : std::max(xv[p->rn], xv[p->rm]); if (p->x) a = ~a; if (p->cond == 2) up(v, xv[55]);
            unsigned __int128 r = (unsigned __int128)a + b + (p->cond == 2 ? X(55) & 1 : p->cond); X(p->rd) = (uint64_t)r; X(55) = (uint64_t)(r >> 64); xv[p->rd] = xv[55] = v; break; }
        case P_MULI: X(p->rd) = X(p->rn) * (uint64_t)p->imm; xv[p->rd] = xv[p->rn]; break;
        case P_SHIFT: { uint32_t bits = w ? 64 : 32, n = p->kind ? p->amt : (uint32_t)X(p->rm) & (2 * bits - 1); uint64_t a = X(p->rn), r, v = p->kind ? xv[p->rn] : std::max(xv[p->rn], xv[p->rm]);
            if (p->x == 2) { int64_t s = w ? (int64_t)a : (int64_t)(int32_t)a; uint32_t k = n >= bits ? bits - 1 : n; r = (uint64_t)(s >> k); uint64_t lost = n >= bits ? (uint64_t)s : (uint64_t)s & ((1ull << n) - 1); X(55) = s < 0 && lost; xv[55] = v; }
            else { if (!w) a = (uint32_t)a; r = n >= bits ? 0 : p->x ? a >> n : a << n; if (!w) r = (uint32_t)r; }
            X(p->rd) = r; xv[p->rd] = v; break; }
        case P_CROP: { uint32_t r = p->x >> (CRBIT(p->rn) * 2 + CRBIT(p->rm)) & 1, f = 56 + p->rd / 4, m = 8u >> (p->rd % 4); uint64_t v = p->x == 15 || p->x == 0 || (p->rn == p->rm && (p->x == 6 || p->x == 9)) ? 0 : std::max(xv[56 + p->rn / 4], xv[56 + p->rm / 4]); X(f) = r ? X(f) | m : X(f) & ~(uint64_t)m; up(xv[f], v); break; }
        case P_MFCR: { uint64_t r = 0, v = 0; for (int i = 0; i < 8; ++i) if (p->x >> (7 - i) & 1) { r |= X(56 + i) << (28 - 4 * i); up(v, xv[56 + i]); } X(p->rd) = r; xv[p->rd] = v; break; }
        case P_MTCR: for (int i = 0; i < 8; ++i) if (p->x >> (7 - i) & 1) { X(56 + i) = X(p->rn) >> (28 - 4 * i) & 15; xv[56 + i] = xv[p->rn]; } break;
        case P_ISEL: { uint32_t s = CRBIT(p->amt) ? p->rn : p->rm; uint64_t r = X(s), v = std::max(xv[s], xv[56 + p->amt / 4]); X(p->rd) = r; xv[p->rd] = v; break; }
        case P_BC: up(T[tid()].ctl, xv[p->rn]); if (((X(p->rn) & p->amt) != 0) == (p->x != 0)) p = (const A64Ins*)p->sym - 1; break;
        case P_BCLR: up(T[tid()].ctl, xv[p->rn]); if (((X(p->rn) & p->amt) != 0) == (p->x != 0)) { uint64_t r = X(30); if (!r) return; p = (const A64Ins*)r - 1; } break;
        case P_BD: if ((--X(p->rn) == 0) == !p->x) p = (const A64Ins*)p->sym - 1; break;
        // the condition field shows whether it was stored: a branch on it and isync order what follows after the store
        case P_STCX: { uint64_t d = X(p->rm); bool ok = store_ex(X(p->rn), p->size, (const uint8_t*)&d, false); X(56) = ok ? 2 : 0; xv[56] = ok ? gts : 0; break; }
        case P_ISYNC: { Th& t = T[tid()]; up(t.vrNew, t.ctl); break; }
        case P_YIELD: if (C.active) touch(0, 0, A_PAUSE); break;
        case P_S2D: { uint32_t s; memcpy(&s, M.v[p->rn].b, 4); uint64_t r; if ((s >> 23 & 255) == 255) r = (uint64_t)(s >> 31) << 63 | 0x7ffull << 52 | (uint64_t)(s & 0x7fffff) << 29; else { float f; memcpy(&f, &s, 4); double q = f; memcpy(&r, &q, 8); } memset(M.v[p->rd].b, 0, 16); memcpy(M.v[p->rd].b, &r, 8); M.vv[p->rd] = M.vv[p->rn]; break; }
        case P_D2S: { uint64_t r; memcpy(&r, M.v[p->rn].b, 8); uint32_t s; if ((r >> 52 & 0x7ff) == 0x7ff) s = (uint32_t)(r >> 63) << 31 | 0xffu << 23 | (uint32_t)(r >> 29 & 0x7fffff); else { double q; memcpy(&q, &r, 8); float f = (float)q; memcpy(&s, &f, 4); } memset(M.v[p->rd].b, 0, 16); memcpy(M.v[p->rd].b, &s, 4); M.vv[p->rd] = M.vv[p->rn]; break; }
        case P_FRSP: { double q; memcpy(&q, M.v[p->rn].b, 8); q = (double)(float)q; memset(M.v[p->rd].b, 0, 16); memcpy(M.v[p->rd].b, &q, 8); M.vv[p->rd] = M.vv[p->rn]; break; }
        case P_FCMP: { double a, b; memcpy(&a, M.v[p->rn].b, 8); memcpy(&b, M.v[p->rm].b, 8); X(p->rd) = a < b ? 8 : a > b ? 4 : a == b ? 2 : 1; xv[p->rd] = std::max(M.vv[p->rn], M.vv[p->rm]); break; }
#undef CRBIT

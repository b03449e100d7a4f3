// Built-in models: C runtime, C++ ABI, allocation, and the vp_* harness primitives.
// Every decide/concretize happens before the first state mutation of a builtin (a forked sibling re-executes it).
static TInfo* i8t() { static TInfo* t = tinfo(Type::getInt8Ty(*Ctx)); return t; }
static E byteAt(const Val& p, u64 i) {
  Val a = p.e ? fromE(mkAdd(p.e, mkConst(i, 64))) : Val(p.c + i);
  return toE(loadVal(i8t(), a), 8);
}
// -------- allocation
static bool newFails() { // consumes one allocation credit
  if (S->failNew < 0) return false;
  if (S->failNew == 0) { S->failNew = -1; return true; }
  S->failNew--;
  return false;
}
[[noreturn]] static void throwBadAlloc() {
  if (!fiThrowBadAlloc) throw Unsupported{"bad_alloc without runtime"};
  pushFrame(fiThrowBadAlloc, {}); throw Restart{};
}
static Val newCommon(const Val& n, AllocKind ak, bool nothrow) {
  if (!S->symSize && n.e) conc(n); // forks first
  if (S->failNew == 0) { newFails(); if (nothrow) return Val((u64)0); throwBadAlloc(); }
  Val r = doAlloc(n, ak);
  if (r.c == ~(u64)0 && !r.e) { if (nothrow) return Val((u64)0); throwBadAlloc(); }
  newFails();
  return r;
}
static Val bNew(Ins&, vector<Val>& a) { return newCommon(a[0], AK_New, false); }
static Val bNewA(Ins&, vector<Val>& a) { return newCommon(a[0], AK_NewArr, false); }
static Val bNewNT(Ins&, vector<Val>& a) { return newCommon(a[0], AK_New, true); }
static Val bNewANT(Ins&, vector<Val>& a) { return newCommon(a[0], AK_NewArr, true); }
static Val alignedNew(vector<Val>& a, AllocKind ak) { u64 al = conc(a[1]); Val r = newCommon(a[0], ak, false); if (!r.e && r.c) S->mem.getW(r.c >> SLOT)->align = std::max<u64>(al, 16); return r; }
static Val bNewAl(Ins&, vector<Val>& a) { return alignedNew(a, AK_New); }
static Val bNewAAl(Ins&, vector<Val>& a) { return alignedNew(a, AK_NewArr); }
static Val bDelAl(Ins&, vector<Val>& a) { doFree(a[0], AK_New, nullptr, std::max<u64>(conc(a[1]), 16)); return Val(); }
static Val bDelAAl(Ins&, vector<Val>& a) { doFree(a[0], AK_NewArr, nullptr, std::max<u64>(conc(a[1]), 16)); return Val(); }
static Val bDelSAl(Ins&, vector<Val>& a) { doFree(a[0], AK_New, &a[1], std::max<u64>(conc(a[2]), 16)); return Val(); }
static Val bDelASAl(Ins&, vector<Val>& a) { doFree(a[0], AK_NewArr, &a[1], std::max<u64>(conc(a[2]), 16)); return Val(); }
static Val bDel(Ins&, vector<Val>& a) { doFree(a[0], AK_New, nullptr); return Val(); }
static Val bDelA(Ins&, vector<Val>& a) { doFree(a[0], AK_NewArr, nullptr); return Val(); }
static Val bDelS(Ins&, vector<Val>& a) { doFree(a[0], AK_New, &a[1]); return Val(); }
static Val bDelAS(Ins&, vector<Val>& a) { doFree(a[0], AK_NewArr, &a[1]); return Val(); }
static Val bMalloc(Ins&, vector<Val>& a) { return doAlloc(a[0], AK_Malloc); }
static Val bCalloc(Ins&, vector<Val>& a) { u64 x = conc(a[0]), y = conc(a[1]); return doAlloc(Val(x * y), AK_Malloc, false); }
static Val bFree(Ins&, vector<Val>& a) { doFree(a[0], AK_Malloc, nullptr); return Val(); }
static Val bRealloc(Ins&, vector<Val>& a) {
  u64 p = conc(a[0]); u64 n = conc(a[1]);
  if (!p) return doAlloc(Val(n), AK_Malloc);
  Obj* o = S->mem.get(p >> SLOT);
  if (!o || !o->alive || o->kind != OK::Heap || o->ak != AK_Malloc || p != baseOf(p >> SLOT) || o->log) fail("memory", "realloc of an invalid pointer");
  u64 k = std::min<u64>(o->size, n);
  Val r = doAlloc(Val(n), AK_Malloc);
  if (r.c) { doMemcpy(r, Val(p), Val(k)); doFree(Val(p), AK_Malloc, nullptr); }
  return r;
}
// -------- memory and strings
static Val bMemcpy(Ins&, vector<Val>& a) { doMemcpy(a[0], a[1], a[2]); return a[0]; }
static Val bMemset(Ins&, vector<Val>& a) { doMemset(a[0], a[1], a[2]); return a[0]; }
static Val bMemcmp(Ins&, vector<Val>& a) {
  u64 n = conc(a[2]);
  E r = mkConst(0, 32);
  vector<E> x, y;
  for (u64 i = 0; i < n; i++) {
    x.push_back(byteAt(a[0], i)); y.push_back(byteAt(a[1], i));
    if (isC(x[i]) && isC(y[i]) && x[i] != y[i]) break;
  }
  for (size_t i = x.size(); i-- > 0;) r = mkIte(mkEq(x[i], y[i]), r, mkIte(mkUlt(x[i], y[i]), mkConst(0xffffffffu, 32), mkConst(1, 32)));
  return fromE(r);
}
static Val bBcmp(Ins&, vector<Val>& a) {
  u64 n = conc(a[2]);
  E all = mkTrue();
  for (u64 i = 0; i < n; i++) { all = mkAnd(all, mkEq(byteAt(a[0], i), byteAt(a[1], i))); if (isC(all) && !all->c) break; }
  return fromE(mkIte(all, mkConst(0, 32), mkConst(1, 32)));
}
static Val bStrlen(Ins&, vector<Val>& a) {
  for (u64 i = 0;; i++) if (decide(mkEq(byteAt(a[0], i), mkConst(0, 8)))) return Val(i);
}
static Val bStrcmp(Ins&, vector<Val>& a) {
  for (u64 i = 0;; i++) {
    E x = byteAt(a[0], i), y = byteAt(a[1], i);
    if (!decide(mkEq(x, y))) return Val(decide(mkUlt(x, y)) ? (u64)0xffffffffu : (u64)1);
    if (decide(mkEq(x, mkConst(0, 8)))) return Val((u64)0);
  }
}
static Val bStrncmp(Ins&, vector<Val>& a) {
  u64 n = conc(a[2]);
  for (u64 i = 0; i < n; i++) {
    E x = byteAt(a[0], i), y = byteAt(a[1], i);
    if (!decide(mkEq(x, y))) return Val(decide(mkUlt(x, y)) ? (u64)0xffffffffu : (u64)1);
    if (decide(mkEq(x, mkConst(0, 8)))) return Val((u64)0);
  }
  return Val((u64)0);
}
static Val bMemchr(Ins&, vector<Val>& a) {
  u64 n = conc(a[2]); E c = mkExtract(toE(a[1], 32), 0, 8); u64 p = conc(a[0]);
  for (u64 i = 0; i < n; i++) if (decide(mkEq(byteAt(Val(p), i), c))) return Val(p + i);
  return Val((u64)0);
}
// -------- process
static Val bAbort(Ins&, vector<Val>&) { fail("abort", "abort() is called"); }
static Val bTerminate(Ins&, vector<Val>&) { fail("uncaught", "std::terminate is called (exception crosses a noexcept boundary)"); }
static Val bAssert(Ins&, vector<Val>& a) { fail("abort", "assertion failed: " + readCStr(conc(a[0]))); }
static Val bExit(Ins&, vector<Val>&) { fail("abort", "exit() is called"); }
static Val bPure(Ins&, vector<Val>&) { fail("undefined", "pure virtual function called"); }
static Val bZero(Ins&, vector<Val>&) { return Val((u64)0); }
static Val bOne(Ins&, vector<Val>&) { return Val((u64)1); }
static Val bLock(Ins&, vector<Val>&) { S->lockDepth++; return Val((u64)0); }
static Val bUnlock(Ins&, vector<Val>&) { if (S->lockDepth > 0) S->lockDepth--; return Val((u64)0); }
static Val bFwrite(Ins&, vector<Val>& a) { return a[2]; }
static Val bDemangle(Ins&, vector<Val>& a) { // fails: callers fall back to the mangled name
  u64 st = conc(a[3]);
  if (st) storeVal(tinfo(Type::getInt32Ty(*Ctx)), Val(st), Val((u64)0xfffffffeu));
  return Val((u64)0);
}
// -------- C++ ABI
static Val bDynCast(Ins&, vector<Val>& a) { // (object, static type, wanted type, hint): unambiguous public bases
  u64 p = conc(a[0]); if (!p) return Val((u64)0);
  u64 vt = loadU64(p); u64 whole = p + loadU64(vt - 16), have = loadU64(vt - 8), adj = 0;
  return Val(tiMatch(conc(a[2]), have, adj) ? whole + adj : (u64)0);
}
static Val bGuardAcq(Ins&, vector<Val>& a) {
  Val v = loadVal(i8t(), a[0]);
  if (conc(v)) return Val((u64)0);
  S->guardDepth++;
  return Val((u64)1);
}
static Val bGuardRel(Ins&, vector<Val>& a) { storeVal(i8t(), a[0], Val((u64)1)); if (S->guardDepth > 0) S->guardDepth--; return Val(); }
static Val bGuardAbort(Ins&, vector<Val>&) { if (S->guardDepth > 0) S->guardDepth--; return Val(); }
static Val bExcAlloc(Ins&, vector<Val>& a) { u64 n = conc(a[0]); return Val(baseOf(newObj(*S, OK::Exc, n, true, "exception"))); }
static Val bExcFree(Ins&, vector<Val>& a) { freeExc(conc(a[0])); return Val(); }
static Val bThrow(Ins&, vector<Val>& a) {
  u64 p = conc(a[0]);
  ExcInfo x; x.tinfo = conc(a[1]); x.dtor = conc(a[2]);
  S->exc[p] = x; S->uncaught++;
  unwind(p, true);
}
static u64 excBase(u64 p) { return baseOf(p >> SLOT); }
static Val bBeginCatch(Ins&, vector<Val>& a) {
  u64 p = excBase(conc(a[0]));
  ExcInfo& x = S->exc[p];
  x.handlers = (x.handlers < 0 ? -x.handlers : x.handlers) + 1;
  if (S->caught.empty() || S->caught.back() != p) S->caught.push_back(p);
  if (S->uncaught > 0) S->uncaught--;
  return Val(x.adj ? x.adj : p);
}
static Val bGetExcPtr(Ins&, vector<Val>& a) { u64 p = excBase(conc(a[0])); u64 adj = S->exc[p].adj; return Val(adj ? adj : p); }
static Val bEndCatch(Ins&, vector<Val>&) {
  if (S->caught.empty()) return Val();
  u64 p = S->caught.back(); ExcInfo& x = S->exc[p];
  if (x.handlers < 0) { if (++x.handlers == 0) S->caught.pop_back(); return Val(); }
  if (--x.handlers > 0) return Val();
  S->caught.pop_back();
  if (x.dtor) {
    auto it = funcById.find(x.dtor >> SLOT);
    if (it == funcById.end()) throw Unsupported{"exception destructor"};
    if (it->second->builtin >= 0 || it->second->f->isDeclaration()) { freeExc(p); return Val(); }
    pushFrame(it->second, {Val(p)}, p, true); throw Restart{};
  }
  freeExc(p);
  return Val();
}
static Val bRethrow(Ins&, vector<Val>&) {
  if (S->caught.empty()) fail("uncaught", "rethrow without an active exception");
  u64 p = S->caught.back(); ExcInfo& x = S->exc[p];
  x.handlers = -x.handlers; S->uncaught++;
  unwind(p, true);
}
static Val bUncaught(Ins&, vector<Val>&) { return Val((u64)S->uncaught); }
static Val bUnwindResume(Ins&, vector<Val>& a) { u64 e = conc(a[0]); popFrame(); unwind(e, false); }
// -------- harness primitives
static E newSym(const string& n, unsigned w) { // a fresh input, or the recorded one while inputs are being repeated
  if (S->replayAt >= 0) {
    if ((size_t)S->replayAt >= S->replayEnd) fail("harness", "repeated inputs exhausted");
    SymRec& r = S->syms[S->replayAt++];
    if (r.arr >= 0 || r.w != w || r.name != n) fail("harness", "repeated inputs differ");
    return r.e;
  }
  E v = mkVar(n, w); S->syms.push_back(SymRec{n, w, v}); return v;
}
static Val vpMark(Ins&, vector<Val>&) { return Val((u64)S->syms.size()); }
static Val vpAgain(Ins&, vector<Val>& a) {
  long m = (long)conc(a[0]);
  if (m < 0) { if (S->replayAt < 0 || (size_t)S->replayAt != S->replayEnd) fail("harness", "repeated inputs not used up"); S->replayAt = -1; }
  else { S->replayAt = m; S->replayEnd = S->syms.size(); }
  return Val();
}
static Val vpSym(Ins&, vector<Val>& a) { // (name, bits)
  string n = readCStr(conc(a[0])); unsigned w = (unsigned)conc(a[1]);
  return fromE(mkZExt(newSym(n, w), 64));
}
static Val vpSymMem(Ins&, vector<Val>& a) { // (name, ptr, len)
  string n = readCStr(conc(a[0]));
  Val len = a[2]; if (len.e && isC(len.e)) len = Val((u64)len.e->c);
  u64 dv = a[1].e ? ev(a[1].e) : a[1].c;
  Obj* od = S->mem.get(dv >> SLOT);
  if (od && od->log) {
    if (S->replayAt >= 0) fail("harness", "cannot repeat a symbolic-size input");
    Loc l = resolveRange(a[1], len, true);
    uint32_t ar = mkArr(n);
    SymRec r{n, 8, mkConst(0, 8)}; r.arr = (int)ar; r.len = toE(len, 64); S->syms.push_back(r);
    Obj* o = S->mem.getW(l.id);
    o->log_.push_back(Upd{Upd::Arr, locOff(l), toE(len, 64), mkConst(0, 8), Ref<Obj>(), ar});
    return Val();
  }
  u64 k = conc(len); u64 p = conc(a[1]);
  if (!k) return Val();
  resolve(Val(p), k, true);
  for (u64 i = 0; i < k; i += 8) {
    unsigned b = (unsigned)std::min<u64>(8, k - i);
    E v = newSym(n, b * 8);
    Loc l = resolve(Val(p + i), b, true); writeE(l, v);
  }
  return Val();
}
static Val vpUndefMem(Ins&, vector<Val>& a) { // (ptr, len): contents become indeterminate
  u64 p = conc(a[0]), n = conc(a[1]); if (!n) return Val();
  Loc l = resolve(Val(p), n, true); if (l.o->log) return Val();
  Obj* o = S->mem.getW(l.id); for (u64 i = 0; i < n; i++) o->st[l.off + i] = 1;
  return Val();
}
static E nz(const Val& v, unsigned w) { E e = toE(v, w); return w == 1 ? e : mkNe(e, mkConst(0, w)); }
static Val vpAssume(Ins& I, vector<Val>& a) {
  E c = nz(a[0], I.ops[0].t->w);
  if (isC(c)) { if (!c->c) throw PathEnd{1}; return Val(); }
  if (known(c) == 1) return Val();
  if (!ev(c)) {
    Model m; if (query(c, &m) != Sat::Sat) throw PathEnd{1};
    addC(*S, c); S->model = std::make_shared<Model>(std::move(m)); return Val();
  }
  addC(*S, c); return Val();
}
static Val vpCheck(Ins& I, vector<Val>& a) {
  string m = readCStr(conc(a[1]));
  R->checks++;
  requireT(nz(a[0], I.ops[0].t->w), "assertion", m);
  return Val();
}
static Val vpPick(Ins&, vector<Val>& a) { return Val(conc(a[0])); }
static Val vpCover(Ins&, vector<Val>& a) { R->covers[readCStr(conc(a[0]))]++; return Val(); }
static Val vpObserve(Ins&, vector<Val>& a) { string t = readCStr(conc(a[0])); S->obs.push_back(ObsRec{t, toE(a[1], 64)}); return Val(); }
static Val vpLive(Ins&, vector<Val>&) { return Val((u64)S->live); }
static Val vpSymSize(Ins&, vector<Val>& a) { S->symSize = conc(a[0]) != 0; return Val(); }
static Val vpFreeze(Ins&, vector<Val>& a) { u64 m = conc(a[0]); S->freezeMark = m ? S->mem.n : 0; S->freezeHeapOnly = m == 2; return Val(); }
static Val vpAllow(Ins&, vector<Val>& a) { u64 p = conc(a[0]); if (S->mem.get(p >> SLOT)) S->mem.getW(p >> SLOT)->allow = true; return Val(); }
static Val vpProtect(Ins&, vector<Val>& a) { u64 p = conc(a[0]); bool on = conc(a[2]) != 0; if (S->mem.get(p >> SLOT)) S->mem.getW(p >> SLOT)->prot = on; return Val(); }
static Val vpFailAlloc(Ins&, vector<Val>& a) { S->failNew = (long)conc(a[0]); return Val(); }
static Val vpFail(Ins&, vector<Val>& a) { string m = readCStr(conc(a[0])); R->checks++; fail("assertion", m); }
static Val vpMap(Ins&, vector<Val>& a) {
  if (a[0].e && !isC(a[0].e) && S->symSize) { uint32_t id = newLogObj(*S, OK::Map, a[0].e, "mapping", AK_None); S->mem.getW(id)->baseZero = true; return Val(baseOf(id)); }
  u64 n = conc(a[0]); return Val(baseOf(newObj(*S, OK::Map, n, false, "mapping"))); }
static Val vpUnmap(Ins&, vector<Val>& a) {
  u64 p = conc(a[0]); Obj* o = S->mem.get(p >> SLOT);
  if (!o || o->kind != OK::Map || !o->alive || p != baseOf(p >> SLOT)) fail("memory", "munmap of something that is not a live mapping");
  S->mem.getW(p >> SLOT)->alive = false; return Val();
}
static Val vpIsHeap(Ins&, vector<Val>& a) { u64 p = conc(a[0]); Obj* o = S->mem.get(p >> SLOT); return Val((u64)(o && o->alive && o->kind == OK::Heap)); }
static Val vpDead(Ins&, vector<Val>& a) { u64 p = conc(a[0]); Obj* o = S->mem.get(p >> SLOT); return Val((u64)(!o || !o->alive)); }
// the value with every indeterminate input replaced by an independent one
static E refresh(E e, std::unordered_map<E, E>& memo, std::unordered_map<uint32_t, E>& vars) {
  bool any = false; for (uint32_t x : varsOf(e)) if ((x & 0x80000000u) ? false : gVars[x].undef) any = true;
  if (!any) return e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  E r = e, a = e->k[0] ? refresh(e->k[0], memo, vars) : nullptr, b = e->k[1] ? refresh(e->k[1], memo, vars) : nullptr, c = e->k[2] ? refresh(e->k[2], memo, vars) : nullptr;
  switch (e->op) {
    case Op::Var: { E& n = vars[(uint32_t)e->c]; if (!n) n = mkVar("undef'" + std::to_string(gUndef++), e->w, true); r = n; break; }
    case Op::Not: r = mkNot(a); break; case Op::Neg: r = mkNeg(a); break; case Op::Extract: r = mkExtract(a, (unsigned)e->c, e->w); break; case Op::ReadArr: r = mkReadArr((uint32_t)e->c, a); break;
    case Op::ZExt: r = mkZExt(a, e->w); break; case Op::SExt: r = mkSExt(a, e->w); break; case Op::Concat: r = mkConcat(a, b); break; case Op::Ite: r = mkIte(a, b, c); break; case Op::Eq: r = mkEq(a, b); break; case Op::Add: r = mkAdd(a, b); break; case Op::Sub: r = mkSub(a, b); break;
    default: r = mkBin(e->op, a, b);
  }
  return memo[e] = r;
}
static Val vpIsInit(Ins&, vector<Val>& a) { // (ptr,len): no byte depends on indeterminate memory
  u64 p = conc(a[0]), n = conc(a[1]); if (!n) return Val((u64)1);
  Loc l = resolve(Val(p), n, false); if (l.o->log) return Val((u64)1);
  std::unordered_map<E, E> memo; std::unordered_map<uint32_t, E> vars; E differ = mkFalse();
  for (u64 i = 0; i < n; i++) {
    if (l.o->st[l.off + i] == 1) return Val((u64)0);
    if (l.o->st[l.off + i] == 2) { E b = flatByte(l.o, l.off + i), c = refresh(b, memo, vars); if (b != c) differ = mkOr(differ, mkNe(b, c)); }
  }
  if (isC(differ)) return Val((u64)(differ->c == 0));
  Sat r = query(differ, nullptr);
  return Val((u64)(r == Sat::Unsat));
}
static Val vpNop(Ins&, vector<Val>&) { return Val((u64)0); }

static void initBuiltins() {
  auto reg = [&](const char* n, BFn f) { builtinIdx[n] = (int)builtins.size(); builtins.push_back(f); builtinNames.push_back(n); };
  reg("_Znwm", bNew); reg("_Znam", bNewA); reg("_ZnwmSt11align_val_t", bNewAl); reg("_ZnamSt11align_val_t", bNewAAl);
  reg("_ZnwmRKSt9nothrow_t", bNewNT); reg("_ZnamRKSt9nothrow_t", bNewANT);
  reg("_ZdlPv", bDel); reg("_ZdaPv", bDelA); reg("_ZdlPvm", bDelS); reg("_ZdaPvm", bDelAS);
  reg("_ZdlPvSt11align_val_t", bDelAl); reg("_ZdaPvSt11align_val_t", bDelAAl); reg("_ZdlPvmSt11align_val_t", bDelSAl); reg("_ZdaPvmSt11align_val_t", bDelASAl);
  reg("_ZdlPvRKSt9nothrow_t", bDel); reg("_ZdaPvRKSt9nothrow_t", bDelA);
  reg("malloc", bMalloc); reg("calloc", bCalloc); reg("realloc", bRealloc); reg("free", bFree);
  reg("memcpy", bMemcpy); reg("memmove", bMemcpy); reg("memset", bMemset); reg("memcmp", bMemcmp); reg("bcmp", bBcmp);
  reg("strlen", bStrlen); reg("strcmp", bStrcmp); reg("strncmp", bStrncmp); reg("memchr", bMemchr);
  reg("abort", bAbort); reg("exit", bExit); reg("_exit", bExit); reg("_ZSt9terminatev", bTerminate); reg("__assert_fail", bAssert);
  reg("__cxa_pure_virtual", bPure); reg("__cxa_deleted_virtual", bPure);
  reg("__cxa_atexit", bZero); reg("__cxa_thread_atexit", bZero); reg("__cxa_guard_acquire", bGuardAcq); reg("__cxa_guard_release", bGuardRel); reg("__cxa_guard_abort", bGuardAbort);
  reg("__cxa_allocate_exception", bExcAlloc); reg("__cxa_free_exception", bExcFree); reg("__cxa_throw", bThrow); reg("__cxa_begin_catch", bBeginCatch);
  reg("__cxa_end_catch", bEndCatch); reg("__cxa_rethrow", bRethrow); reg("__cxa_get_exception_ptr", bGetExcPtr); reg("_ZSt19uncaught_exceptionsv", bUncaught); reg("_ZSt18uncaught_exceptionv", bUncaught);
  reg("__cxa_demangle", bDemangle); reg("__dynamic_cast", bDynCast); reg("_Unwind_Resume", bUnwindResume);
  for (const char* n : {"printf", "fprintf", "puts", "putchar", "fflush", "fputs", "fputc", "putc", "perror", "vprintf", "vfprintf", "__gxx_personality_v0", "sched_yield", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt8ios_base4InitC2Ev", "_ZNSt8ios_base4InitD2Ev"}) reg(n, bZero);
  reg("fwrite", bFwrite); reg("pthread_mutex_lock", bLock); reg("pthread_mutex_unlock", bUnlock); reg("pthread_rwlock_wrlock", bLock); reg("pthread_rwlock_rdlock", bZero); reg("pthread_rwlock_unlock", bUnlock);
  reg("vp_sym", vpSym); reg("vp_sym_mem", vpSymMem); reg("vp_undef_mem", vpUndefMem); reg("vp_assume", vpAssume); reg("vp_check", vpCheck); reg("vp_pick", vpPick); reg("vp_cover", vpCover);
  reg("vp_observe", vpObserve); reg("vp_live", vpLive); reg("vp_symsize", vpSymSize); reg("vp_freeze", vpFreeze); reg("vp_allow", vpAllow); reg("vp_protect", vpProtect);
  reg("vp_fail_alloc", vpFailAlloc); reg("vp_fail", vpFail); reg("vp_map", vpMap); reg("vp_unmap", vpUnmap); reg("vp_is_heap", vpIsHeap); reg("vp_dead", vpDead); reg("vp_is_init", vpIsInit);
  reg("vp_native", bZero); reg("vp_mark", vpMark); reg("vp_again", vpAgain); reg("vp_nop", vpNop);
}

// The only place that looks below the public interface (read only).
#ifndef PROBE_H
#define PROBE_H
struct PNode { const void *key; CalBddNode_t *ptr; int id; bool isOne; };
struct PEdge { PNode node; bool neg; };
static inline PEdge mkEdge(Cal_BddManager m, Cal_Bdd_t b) {
  PEdge e; e.neg = CAL_TAG0(b.bddNode) != 0;
  CalBddNode_t *p = CAL_BDD_POINTER(b.bddNode);
  e.node.key = p; e.node.ptr = p; e.node.id = b.bddId; e.node.isOne = (p == CAL_BDD_POINTER(m->bddOne.bddNode));
  return e;
}
static inline PEdge probeHandle(Cal_BddManager m, Cal_Bdd h) {
  Cal_Bdd_t b = CalBddGetInternalBdd(m, h); return mkEdge(m, b);
}
static inline PEdge probeThen(Cal_BddManager m, const PNode &n) {
  Cal_Bdd_t b, r; b.bddId = (Cal_BddId_t)n.id; b.bddNode = n.ptr; CalBddGetThenBdd(b, r); return mkEdge(m, r);
}
static inline PEdge probeElse(Cal_BddManager m, const PNode &n) {
  Cal_Bdd_t b, r; b.bddId = (Cal_BddId_t)n.id; b.bddNode = n.ptr; CalBddGetElseBdd(b, r); return mkEdge(m, r);
}
static inline int probeIndexOf(Cal_BddManager m, int id) { return m->idToIndex[id]; }
static inline int probeIdAt(Cal_BddManager m, int ix) { return m->indexToId[ix]; }
static inline int probeOverflow(Cal_BddManager m) { return m->overflow; }
static inline Cal_Bdd probeNot(Cal_Bdd h) { return (Cal_Bdd)((CalAddress_t)h ^ 1); }
static inline bool probeIsRegular(Cal_Bdd h) { return CAL_TAG0(h) == 0; }
static inline int probeRefCount(Cal_Bdd h) { int r; CalBddNode_t *n = CAL_BDD_POINTER(h); CalBddNodeGetRefCount(n, r); return r; }
static inline int probeNodeRefCount(CalBddNode_t *n) { int r; CalBddNodeGetRefCount(n, r); return r; }
static inline int probeMarkBits(CalBddNode_t *n) { return (int)(((CalAddress_t)n->thenBddNode) & 0xe); }
// every node of the unique table of one variable (id 0: the user handles)
template<class F> static inline void probeEachNode(Cal_BddManager m, int id, F f) {
  CalHashTable_t *t = m->uniqueTable[id];
  for (long b = 0; b < t->numBins; b++)
    for (CalBddNode_t *n = t->bins[b]; n; ) {
      n = CAL_BDD_POINTER(n); f(n, b);
      n = CalBddNodeGetNextBddNode(n);
    }
}
static inline PEdge probeThenRaw(Cal_BddManager m, CalBddNode_t *n) { Cal_Bdd_t r; CalBddNodeGetThenBdd(n, r); return mkEdge(m, r); }
static inline PEdge probeElseRaw(Cal_BddManager m, CalBddNode_t *n) { Cal_Bdd_t r; CalBddNodeGetElseBdd(n, r); return mkEdge(m, r); }
static inline long probeTableCount(Cal_BddManager m, int id) { return m->uniqueTable[id]->numEntries; }
// references held by variable associations on internal nodes
template<class F> static inline void probeEachAssoc(Cal_BddManager m, F f) {
  for (CalAssociation_t *a = m->associationList; a; a = a->next)
    for (int i = 1; i <= m->numVars; i++) if (!CalBddIsBddNull(m, a->varAssociation[i])) f(a->id, i, mkEdge(m, a->varAssociation[i]));
  for (int i = 1; i <= m->numVars; i++) if (!CalBddIsBddNull(m, m->tempAssociation->varAssociation[i])) f(-1, i, mkEdge(m, m->tempAssociation->varAssociation[i]));
}
#endif

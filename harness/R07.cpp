#include "scans.h"
#define handleHints handleHintsIndexScan
#include "rdf3x/src/rts/IndexScan.cpp"
#undef handleHints
#define handleHints handleHintsAggregated
#include "rdf3x/src/rts/AggregatedIndexScan.cpp"
#undef handleHints
#define handleHints handleHintsFullyAggregated
#include "rdf3x/src/rts/FullyAggregatedIndexScan.cpp"
#undef handleHints
#include "rdf3x/src/rts/Operator.cpp"
extern "C" {
#define F(c, x) extern const unsigned long K_##c##_##x = offsetof(c, x);
F(IndexScan, value1) F(IndexScan, value2) F(IndexScan, value3) F(IndexScan, bound1) F(IndexScan, bound2) F(IndexScan, bound3) F(IndexScan, order) F(IndexScan, hint) F(IndexScan, scan) F(IndexScan, merge1) F(IndexScan, merge2) F(IndexScan, merge3)
F(IndexScan, observedOutputCardinality)
F(AggregatedIndexScan, value1) F(AggregatedIndexScan, value2) F(AggregatedIndexScan, bound1) F(AggregatedIndexScan, bound2) F(AggregatedIndexScan, order) F(AggregatedIndexScan, hint) F(AggregatedIndexScan, scan) F(AggregatedIndexScan, merge1) F(AggregatedIndexScan, merge2)
F(AggregatedIndexScan, observedOutputCardinality)
F(FullyAggregatedIndexScan, value1) F(FullyAggregatedIndexScan, bound1) F(FullyAggregatedIndexScan, order) F(FullyAggregatedIndexScan, hint) F(FullyAggregatedIndexScan, scan) F(FullyAggregatedIndexScan, merge1)
F(FullyAggregatedIndexScan, observedOutputCardinality)
extern const unsigned long K_reg_domain = offsetof(Register, domain);
extern const unsigned long K_IndexScan_hscan = offsetof(IndexScan::IndexScanHint, scan);
extern const unsigned long K_AggregatedIndexScan_hscan = offsetof(AggregatedIndexScan::AggregatedHint, scan);
extern const unsigned long K_FullyAggregatedIndexScan_hscan = offsetof(FullyAggregatedIndexScan::FullyAggregatedHint, scan);
extern const unsigned long K_IndexScan_size = sizeof(IndexScan);
extern const unsigned long K_AggregatedIndexScan_size = sizeof(AggregatedIndexScan);
extern const unsigned long K_FullyAggregatedIndexScan_size = sizeof(FullyAggregatedIndexScan);
}

// Storage layer for the scan operators: every virtual function of the interface DBLayer::Scan forwards to a body-less
// function whose contract (an arbitrary enumeration of stored tuples) is supplied by the verifier.
#pragma once
#include <cstddef>
#include <cassert>
#include "ops.h"
#include "dblayer.hpp"
extern "C" {
bool vp_scan_first(void*, unsigned n, uint64_t c1, uint64_t c2, uint64_t c3);
bool vp_scan_next(void*);
uint64_t vp_scan_value(void*, unsigned k);
uint64_t vp_scan_count(void*);
void vp_scan_delete(void*);
void* vp_db_scan(void*, unsigned order, unsigned aggr, void* hint);
}
struct ChildScan : DBLayer::Scan {
   uint64_t getValue1() { return vp_scan_value(this, 1); }
   uint64_t getValue2() { return vp_scan_value(this, 2); }
   uint64_t getValue3() { return vp_scan_value(this, 3); }
   uint64_t getCount() { return vp_scan_count(this); }
   bool next() { return vp_scan_next(this); }
   bool first() { return vp_scan_first(this, 0, 0, 0, 0); }
   bool first(uint64_t a, bool ba) { return vp_scan_first(this, ba ? 1 : 0, a, 0, 0); }
   bool first(uint64_t a, bool ba, uint64_t b, bool bb) { return vp_scan_first(this, (ba ? 1 : 0) + (bb ? 2 : 0), a, b, 0); }
   bool first(uint64_t a, bool ba, uint64_t b, bool bb, uint64_t c, bool bc) { return vp_scan_first(this, (ba ? 1 : 0) + (bb ? 2 : 0) + (bc ? 4 : 0), a, b, c); }
   ~ChildScan() { vp_scan_delete(this); }
};
struct ChildDB : DBLayer {
   bool lookup(const std::string&, ::Type::ID, unsigned, uint64_t&) { return false; }
   bool lookupById(uint64_t, const char*&, const char*&, ::Type::ID&, unsigned&) { return false; }
   bool lookupById(uint64_t, char*, size_t&, ::Type::ID&, unsigned&) { return false; }
   uint64_t getNextId() { return 0; }
   double getScanCost(DBLayer::DataOrder, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t) { return 0; }
   double getScanCost(DBLayer::DataOrder, uint64_t, uint64_t, uint64_t, uint64_t) { return 0; }
   double getJoinSelectivity(bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t) { return 0; }
   double getScanCost(DBLayer::DataOrder, uint64_t, uint64_t) { return 0; }
   uint64_t getCardinality(uint64_t, uint64_t, uint64_t) { return 0; }
   uint64_t getCardinality() { return 0; }
   std::unique_ptr<DBLayer::Scan> getScan(const DataOrder order, const Aggr_t aggr, Hint* hint) { return std::unique_ptr<DBLayer::Scan>((DBLayer::Scan*)vp_db_scan(this, order, aggr, hint)); }
};
extern "C" {
void* vp_make_scan() { return new ChildScan(); }
void* vp_make_db() { return new ChildDB(); }
uint64_t vp_first(Operator* o) { return o->first(); }
uint64_t vp_next(Operator* o) { return o->next(); }
}

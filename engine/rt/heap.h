#pragma once
#include <cstddef>
#include <cstdint>
// Bump heap for the program under test (never reused, so addresses are
// deterministic along a path and stale shadow cannot reappear).
struct HObj { uint64_t first, second; };
extern HObj *heapObjs;
extern size_t nHeapObjs;
extern uint8_t *heapBase, *heapCur, *heapEnd;
extern bool heapActive;

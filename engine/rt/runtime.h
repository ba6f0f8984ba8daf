#pragma once
#include "expr.h"
#include <set>
#include <string>
enum PathEnd { PE_DONE, PE_ASSUME, PE_FAIL, PE_LIMIT, PE_CRASH, PE_EXC };
struct RtState {
  bool active = false;
  Job job;
  int tier = 0;
  u64 maxDecs = 100000;
  u64 iteLimit = 512;
  void *modelArgs = nullptr;
  u64 asserts = 0;
  std::set<std::string> covers, unsupported;
  std::set<void *> externals, extmem;
  [[noreturn]] void endPath(PathEnd);
  void fail(const char *kind, const char *msg);
};
extern RtState rt;
bool isModel(void *f);
void concretize(u32 e);

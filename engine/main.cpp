#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <cstdio>
#include <cstdlib>
using namespace ms;
int main(int argc, char** argv) {
    Options o; std::string bc, json; unsigned tmo = 0; std::string dumpTo;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() -> const char* { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return argv[++i]; };
        if (a == "--entry") o.entry = nx();
        else if (a == "--out") o.out = nx();
        else if (a == "--repo") o.repo = nx();
        else if (a == "--time-limit") o.timeLimit = atof(nx());
        else if (a == "--max-steps") o.maxSteps = strtoull(nx(), 0, 0);
        else if (a == "--max-paths") o.maxPaths = strtoull(nx(), 0, 0);
        else if (a == "--max-conc") o.maxConc = strtoull(nx(), 0, 0);
        else if (a == "--branch-timeout") o.branchTimeout = atoi(nx());
        else if (a == "--assert-timeout") o.assertTimeout = atoi(nx());
        else if (a == "--witnesses") o.witnesses = atoi(nx());
        else if (a == "--max-alloc") o.maxAlloc = strtoull(nx(), 0, 0);
        else if (a == "--dump") dumpTo = nx();
        else if (a == "--seed") o.seed = strtoull(nx(), 0, 0);
        else if (a == "--json") json = nx();
        else if (a == "--verbose") o.verbose = true;
        else if (a == "--stop-on-error") o.stopOnError = true;
        else if (a == "--hang-is-error") o.hangIsError = true;
        else if (a[0] != '-') bc = a;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    (void)tmo;
    llvm::LLVMContext ctx;
    llvm::SMDiagnostic err;
    auto M = llvm::parseIRFile(bc, err, ctx);
    if (!M) { err.print("msym", llvm::errs()); return 2; }
    Executor ex(*M, o); ex.solver.dumpDir = dumpTo;
    ex.run();
    if (json.empty()) json = o.out + "/result.json";
    ex.writeJson(json);
    fflush(nullptr);
    _Exit(0);
}

// Runs the generator of /repo in one process: schema files are read by
// libprotoc, the bindings are written next to them. usage: bindgen MODE FILE..
// MODE selects the layout of memory, so that output that depends on addresses
// is seen: 0 the system allocator, 1 descending addresses, 2 scattered ones.
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <unistd.h>
#include <sys/mman.h>
#include <google/protobuf/compiler/code_generator.h>
#include <google/protobuf/compiler/importer.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include "generator/generator.hh"

static int mode = 0; static char *base, *low; static const size_t SPAN = 1ul << 30; static size_t slot = 0;
static void *take(size_t n) {
  if (!mode) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
  n = (n + 31) & ~(size_t)15;
  if (mode == 2 && n <= 4096) { // one block per page, pages in a scattered order
    slot = (slot * 5 + 12345) & ((1 << 17) - 1); return base + SPAN + slot * 4096;
  }
  low -= n; return low;
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
static bool ours(void *p) { return base && (char *)p >= base && (char *)p < base + 2 * SPAN; }
void operator delete(void *p) noexcept { if (!ours(p)) free(p); }
void operator delete[](void *p) noexcept { if (!ours(p)) free(p); }
void operator delete(void *p, size_t) noexcept { if (!ours(p)) free(p); }
void operator delete[](void *p, size_t) noexcept { if (!ours(p)) free(p); }

using namespace google::protobuf;
struct Err : compiler::MultiFileErrorCollector {
  void AddError(const std::string &f, int l, int c, const std::string &m) override { fprintf(stderr, "%s:%d:%d: %s\n", f.c_str(), l + 1, c + 1, m.c_str()); }
};
struct Dir : compiler::GeneratorContext {
  std::map<std::string, std::string> files;
  io::ZeroCopyOutputStream *Open(const std::string &name) override { return new io::StringOutputStream(&files[name]); }
};
extern "C" const char *__asan_default_options() { return "detect_leaks=0:detect_container_overflow=0:alloc_dealloc_mismatch=0:exitcode=99:handle_abort=1"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  int m = atoi(argv[1]);
  if (m) {
    base = (char *)mmap(nullptr, 2 * SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) return 2;
    low = base + SPAN; mode = m;
  }
  compiler::DiskSourceTree tree; tree.MapPath("", "."); Err err; compiler::Importer imp(&tree, &err);
  protobluff::Generator gen; Dir dir;
  for (int i = 2; i < argc; i++) {
    const FileDescriptor *f = imp.Import(argv[i]); if (!f) return 3;
    std::string error; const compiler::CodeGenerator &cg = gen;
    if (!cg.Generate(f, "", &dir, &error)) { fprintf(stderr, "%s\n", error.c_str()); return 4; }
  }
  for (auto &f : dir.files) { FILE *o = fopen(f.first.c_str(), "w"); if (!o || fwrite(f.second.data(), 1, f.second.size(), o) != f.second.size() || fclose(o)) return 5; }
  fflush(stdout); _exit(0);
}

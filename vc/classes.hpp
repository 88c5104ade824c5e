struct Animal { virtual ~Animal() {} };
struct Plain { int x; virtual ~Plain() {} };
struct Cat : Plain, Animal {};
struct VCat : Plain, virtual Animal {};
#define REG(N, ...) struct N : registry<std_rtti, default_error_handler, stderr_output, __VA_ARGS__> {}
REG(PA, vptr_vector, fast_perfect_hash, runtime_checks);
REG(PC, vptr_vector, fast_perfect_hash, indirect_vptr, runtime_checks);
REG(PE, vptr_map<>, indirect_vptr);
REG(PB, vptr_vector, fast_perfect_hash);

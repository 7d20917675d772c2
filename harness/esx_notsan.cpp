// what -fsanitize=thread calls besides atomic accesses: nothing to do in the plain build
extern "C" {
#define N(f) void __tsan_##f(void *) {}
N(read1) N(read2) N(read4) N(read8) N(read16) N(write1) N(write2) N(write4) N(write8) N(write16)
N(unaligned_read1) N(unaligned_read2) N(unaligned_read4) N(unaligned_read8) N(unaligned_read16)
N(unaligned_write1) N(unaligned_write2) N(unaligned_write4) N(unaligned_write8) N(unaligned_write16)
N(volatile_read1) N(volatile_read2) N(volatile_read4) N(volatile_read8) N(volatile_read16)
N(volatile_write1) N(volatile_write2) N(volatile_write4) N(volatile_write8) N(volatile_write16)
N(vptr_read) N(func_entry)
void __tsan_vptr_update(void **, void *) {}
void __tsan_read_range(void *, unsigned long) {}
void __tsan_write_range(void *, unsigned long) {}
void __tsan_init() {}
void __tsan_func_exit() {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

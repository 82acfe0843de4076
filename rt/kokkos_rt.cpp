// Host-only stand-ins for the compiled part of Kokkos 3.7 (allocation records, fences, profiling hooks).
// Used both in the IR build and in the native replay build.
#include <Kokkos_Core.hpp>
#include <impl/Kokkos_SharedAlloc_timpl.hpp>
#include <cstdlib>
#include <cstring>
namespace Kokkos {
namespace Impl {
thread_local int SharedAllocationRecord<void, void>::t_tracking_enabled = 1;
SharedAllocationRecord<void, void>::SharedAllocationRecord(SharedAllocationHeader* p, size_t n, function_type d, const std::string& label)
    : m_alloc_ptr(p), m_alloc_size(n), m_dealloc(d), m_count(0), m_label(label) {}
void SharedAllocationRecord<void, void>::increment(SharedAllocationRecord* r) { r->m_count++; }
SharedAllocationRecord<void, void>* SharedAllocationRecord<void, void>::decrement(SharedAllocationRecord* r) {
  if (--r->m_count == 0) { (*r->m_dealloc)(r); r = nullptr; }
  return r;
}
SharedAllocationRecord<HostSpace, void>::SharedAllocationRecord(const HostSpace& s, const std::string& label, const size_t n, const RecordBase::function_type d)
    : base_t((SharedAllocationHeader*)s.allocate(label.c_str(), n + sizeof(SharedAllocationHeader), n), sizeof(SharedAllocationHeader) + n, d, label), m_space(s) {
  _fill_host_accessible_header_info(*RecordBase::m_alloc_ptr, label);
}
template class SharedAllocationRecordCommon<HostSpace>;
SharedAllocationRecord<HostSpace, void>::~SharedAllocationRecord() { m_space.deallocate(m_label.c_str(), (void*)m_alloc_ptr, m_alloc_size, 0); }
void throw_runtime_exception(const std::string& msg) { throw std::runtime_error(msg); }
void host_abort(const char* const) { ::abort(); }
void safe_throw_allocation_with_header_failure(std::string const&, std::string const&, Kokkos::Experimental::RawMemoryAllocationFailure const&) { throw std::runtime_error("allocation failure"); }
void hostspace_fence(const DefaultHostExecutionSpace&) {}
void hostspace_parallel_deepcopy(void* d, const void* s, ptrdiff_t n) { std::memcpy(d, s, n); }
void hostspace_parallel_deepcopy_async(void* d, const void* s, ptrdiff_t n) { std::memcpy(d, s, n); }
void hostspace_parallel_deepcopy_async(const DefaultHostExecutionSpace&, void* d, const void* s, ptrdiff_t n) { std::memcpy(d, s, n); }
}
HostSpace::HostSpace() : m_alloc_mech(STD_MALLOC) {}
void* HostSpace::allocate(const size_t n) const { return ::malloc(n); }
void* HostSpace::allocate(const char*, const size_t n, const size_t) const { return ::malloc(n); }
void HostSpace::deallocate(void* const p, const size_t) const { ::free(p); }
void HostSpace::deallocate(const char*, void* const p, const size_t, const size_t) const { ::free(p); }
Serial::Serial() : m_space_instance(nullptr, [](Impl::SerialInternal*) {}) {}
bool Serial::impl_is_initialized() { return true; }
void fence(const std::string&) {}
namespace Tools {
bool profileLibraryLoaded() { return false; }
void beginParallelFor(const std::string&, const uint32_t, uint64_t*) {}
void endParallelFor(const uint64_t) {}
void beginParallelReduce(const std::string&, const uint32_t, uint64_t*) {}
void endParallelReduce(const uint64_t) {}
void beginDeepCopy(const SpaceHandle, const std::string, const void*, const SpaceHandle, const std::string, const void*, const uint64_t) {}
void endDeepCopy() {}
SpaceHandle make_space_handle(const char* n) { SpaceHandle h; h.name[0] = 0; return h; }
void beginFence(const std::string, const uint32_t, uint64_t*) {}
void endFence(const uint64_t) {}
namespace Experimental { EventSet get_callbacks() { EventSet e; std::memset(&e, 0, sizeof e); return e; } }
}
namespace Profiling {
bool profileLibraryLoaded() { return false; }
void beginParallelFor(const std::string&, const uint32_t, uint64_t*) {}
void endParallelFor(const uint64_t) {}
void beginParallelReduce(const std::string&, const uint32_t, uint64_t*) {}
void endParallelReduce(const uint64_t) {}
void beginDeepCopy(const SpaceHandle, const std::string, const void*, const SpaceHandle, const std::string, const void*, const uint64_t) {}
void endDeepCopy() {}
SpaceHandle make_space_handle(const char* n) { SpaceHandle h; h.name[0] = 0; return h; }
}
}

// the default memory resource of the standard library (operator new / delete), for the pmr configuration; its source is not in the headers
#include <memory_resource>
#include <new>
namespace std::pmr {
memory_resource::~memory_resource() = default;
namespace {
struct new_delete final : memory_resource
{
    void* do_allocate(size_t n, size_t) override { return ::operator new(n); }
    void  do_deallocate(void* p, size_t, size_t) override { ::operator delete(p); }
    bool  do_is_equal(const memory_resource& o) const noexcept override { return &o == this; }
};
} // namespace
memory_resource* new_delete_resource() noexcept
{
    static new_delete r;
    return &r;
}
namespace {
memory_resource* chosen = nullptr;
}
memory_resource* get_default_resource() noexcept { return chosen ? chosen : new_delete_resource(); }
memory_resource* set_default_resource(memory_resource* r) noexcept
{
    auto* before = get_default_resource();
    chosen       = r ? r : new_delete_resource();
    return before;
}
} // namespace std::pmr

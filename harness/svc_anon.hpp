// Included by two translation units: each has a type of its own that is called plugin (and an interface called codec).
#include <teiacare/sdk/service_locator.hpp>
#include <memory>
namespace
{
struct codec
{
    virtual ~codec() = default;
    virtual int id() const = 0;
};
struct plugin
{
    int v;
};
struct my_codec : codec
{
    int v;
    explicit my_codec(int v) : v(v) {}
    int id() const override { return v; }
};
}
// what: 0 plugin, 1 codec
struct unit_ops
{
    bool (*reg)(int what, int v);
    bool (*unreg)(int what);
    bool (*is)(int what);
    int (*get)(int what); // -1: null
};
#define UNIT_OPS \
    unit_ops { \
        [](int what, int v) { auto& l = tc::sdk::service_locator::instance(); return what ? l.register_service<codec, my_codec>(v) : l.register_instance(std::make_shared<plugin>(plugin{v})); }, \
            [](int what) { auto& l = tc::sdk::service_locator::instance(); return what ? l.unregister<codec>() : l.unregister<plugin>(); }, \
            [](int what) { auto& l = tc::sdk::service_locator::instance(); return what ? l.is_registered<codec>() : l.is_registered<plugin>(); }, \
            [](int what) { auto& l = tc::sdk::service_locator::instance(); if (what) { auto p = l.get<codec>(); return p ? p->id() : -1; } auto p = l.get<plugin>(); return p ? p->v : -1; } \
    }

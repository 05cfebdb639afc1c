#pragma once
// what the scheduler (sched_rt.cpp) needs to know of the generated programs
#ifndef VF_E2E
namespace vf
{
struct Out
{
    int n = 0;
    int res[512];
    unsigned el[512];
    double val[512];
};
struct Entry
{
    int id;
    int arity;
    void (*fn)(double const*, Out&);
};
} // namespace vf
#endif
namespace vf
{
Entry const* entries();
int entry_count();
double const* point_table();
int point_count();
int point_stride();
} // namespace vf

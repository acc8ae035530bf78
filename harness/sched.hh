#pragma once
#include <stddef.h>

#include <functional>
#include <vector>

enum class SchedPoint { Counter, Atomic, Alloc, End };
struct SchedPolicy {
    // the thread that runs next: self is at a point of kind k (End: it is over, or nothing runs yet); alive is not empty
    virtual int next(int self, SchedPoint k, const std::vector<int> &alive) = 0;
    virtual ~SchedPolicy() {}
};
void sched_run(SchedPolicy *, const std::vector<std::function<void()>> &);
size_t sched_mark();
void sched_rewind(size_t);
void sched_trace(void *);
long sched_traced();
int sched_self();

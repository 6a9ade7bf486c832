#include <cstdio>
#include "dpf/distributed_point_function.h"
int main(){ distributed_point_functions::DpfParameters p; p.set_log_domain_size(10); p.mutable_value_type()->mutable_integer()->set_bitsize(32);
 auto d=distributed_point_functions::DistributedPointFunction::Create(p); puts(d.ok()?"ok":"bad"); return !d.ok(); }

# Environment of the harness binaries.
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0:symbolize=0:handle_abort=0

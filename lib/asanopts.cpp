extern "C" const char*
__asan_default_options()
{
	return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:"
		"detect_stack_use_after_return=0:handle_abort=0:malloc_context_size=8";
}

extern "C" const char*
__ubsan_default_options()
{
	return "print_stacktrace=1:halt_on_error=1:exitcode=77";
}

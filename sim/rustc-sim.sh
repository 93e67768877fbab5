#!/bin/sh
# rustc wrapper: instrument the code under simulation (preemption points and coverage); $1 is rustc
case " $* " in
*" --crate-name build_script_build "*) ;;
*" --crate-name pic_scale "*|*" --crate-name rayon "*|*" --crate-name rayon_core "*|*" --crate-name crossbeam_deque "*|*" --crate-name crossbeam_epoch "*|*" --crate-name crossbeam_utils "*)
	exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table ;;
esac
exec "$@"

#!/bin/sh
# Compile the library (and once_cell, which builds its globals) with every atomic
# operation and memory access calling out to the scheduler in src/hooks.rs.
rustc="$1"
shift
export RUSTC_BOOTSTRAP=1
case " $* " in
*" --crate-name phonenumber "* | *" --crate-name once_cell "*)
	exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer ;;
*)
	exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac

#!/bin/bash
# rustc wrapper: compile the code under test and the numerical crates it calls with the compiler's
# thread-sanitizer pass (its calls land in shims/simrt/src/tsan.rs).
rustc="$1"
shift
case " $* " in
  *" --crate-name funspace "* | *" --crate-name fsmc"* | *" --crate-name ndarray "* | *" --crate-name rustfft "* | *" --crate-name realfft "* | *" --crate-name rustdct "* | *" --crate-name num_complex "*)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer ;;
  *) exec "$rustc" "$@" ;;
esac

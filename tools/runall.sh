cd "$(dirname "$0")/.."
for c in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21}; do s=$(date +%s); python3 check.py $c >${TMPDIR:-/tmp}/ra_$c.log 2>&1; echo "$c rc=$? $(( $(date +%s)-s ))s $(grep -E '^(VIOLATION|KNOWN)' ${TMPDIR:-/tmp}/ra_$c.log|head -2)"; done

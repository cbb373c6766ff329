"""Switches of the standard commands as documented (POSIX.1-2017 / 2024 utilities and the GNU manuals): those with a mandatory value, those
without value, and the ones not covered (optional value, historic or contradictory).  Written from the manuals, not from the tables."""
DOCS = {
 "awk": ("-F --field-separator -v --assign -f --file -e --source -E --exec -i --include -l --load",
         "-b --characters-as-bytes -c --traditional -C --copyright -g --gen-pot -h --help -M --bignum -n --non-decimal-data -N --use-lc-numeric "
         "-O --optimize -P --posix -r --re-interval -S --sandbox -t --lint-old -V --version",
         "-d --dump-variables -D --debug -L --lint -ofile --pretty-print -p --profile"),
 "cat": ("", "-A --show-all -b --number-nonblank -e -E --show-ends -n --number -s --squeeze-blank -t -T --show-tabs -u -v --show-nonprinting --help --version -vE -vT", ""),
 "col": ("", "-b --no-backspaces -f --fine -h --tabs -p --pass -x --spaces -V --version -H --help", "-l --lines"),
 "comm": ("--output-delimiter", "-1 -2 -3 --check-order --nocheck-order --total -z --zero-terminated --help --version", ""),
 "cut": ("-b --bytes -c --characters -d --delimiter -f --fields --output-delimiter", "-n --complement -s --only-delimited -z --zero-terminated --help --version", "-M"),
 "diff": ("-C -U -W --width -F --show-function-line --label --tabsize -x --exclude -X --exclude-from -S --starting-file --from-file --to-file "
          "-I --ignore-matching-lines -D --ifdef --line-format --horizon-lines --palette",
          "--normal -q --brief -s --report-identical-files -c -u -e --ed -n --rcs -y --side-by-side --left-column --suppress-common-lines -p "
          "--show-c-function -t --expand-tabs -T --initial-tab --suppress-blank-empty -l --paginate -r --recursive --no-dereference -N --new-file "
          "--unidirectional-new-file --ignore-file-name-case --no-ignore-file-name-case -i --ignore-case -E --ignore-tab-expansion -Z "
          "--ignore-trailing-space -b --ignore-space-change -w --ignore-all-space -B --ignore-blank-lines -a --text --strip-trailing-cr -d "
          "--minimal --speed-large-files --help -v --version -f --forward-ed", "--context --unified --color"),
 "grep": ("-e --regexp -f --file -m --max-count --label -A --after-context -B --before-context -C --context --group-separator --binary-files "
          "-D --devices -d --directories --exclude --exclude-from --exclude-dir --include",
          "--help -V --version -E --extended-regexp -F --fixed-strings -G --basic-regexp -P --perl-regexp -i -y --ignore-case --no-ignore-case "
          "-v --invert-match -w --word-regexp -x --line-regexp -c --count -L --files-without-match -l --files-with-matches -o --only-matching "
          "-q --quiet --silent -s --no-messages -b --byte-offset -H --with-filename -h --no-filename -n --line-number -T --initial-tab "
          "-u --unix-byte-offsets -Z --null --no-group-separator -a --text -I -r --recursive -R --dereference-recursive --line-buffered "
          "-U --binary -z --null-data", "--color --colour"),
 "head": ("-n --lines -c --bytes", "-q --quiet --silent -v --verbose -z --zero-terminated --help --version", ""),
 "mkfifo": ("-m --mode", "-Z --help --version", "--context"),
 "mv": ("-S --suffix -t --target-directory",
        "-b -f --force -i --interactive -n --no-clobber --strip-trailing-slashes -T --no-target-directory -v --verbose -Z --context --help --version",
        "--backup -u --update"),
 "rm": ("", "-f --force -i -I --one-file-system --no-preserve-root -r -R --recursive -d --dir -v --verbose --help --version", "--interactive --preserve-root"),
 "sed": ("-e --expression -f --file -l --line-length",
         "-n --quiet --silent --debug --follow-symlinks --posix -E -r --regexp-extended -s --separate --sandbox -u --unbuffered -z --null-data --help --version",
         "--in-place"),
 "seq": ("-f --format -s --separator", "-w --equal-width --help --version", ""),
 "sort": ("--random-source --sort --batch-size --compress-program --files0-from -k --key -o --output -S --buffer-size -t --field-separator "
          "-T --temporary-directory --parallel",
          "-b --ignore-leading-blanks -d --dictionary-order -f --ignore-case -g --general-numeric-sort -i --ignore-nonprinting -M --month-sort "
          "-h --human-numeric-sort -n --numeric-sort -R --random-sort -r --reverse -V --version-sort -c -C --debug -m --merge -s --stable "
          "-u --unique -z --zero-terminated --help --version", "--check"),
 "tail": ("-c --bytes -n --lines --max-unchanged-stats --pid -s --sleep-interval", "-f -q --quiet --silent --retry -v --verbose -z --zero-terminated --help --version",
          "--follow"),
 "tee": ("", "-a --append -i --ignore-interrupts -p --help --version", "--output-error"),
 "tr": ("", "-c -C --complement -d --delete -s --squeeze-repeats -t --truncate-set1 --help --version", ""),
 "uniq": ("-f --skip-fields -s --skip-chars -w --check-chars", "-c --count -d --repeated -D -i --ignore-case -u --unique -z --zero-terminated --help --version",
          "--all-repeated --group"),
 "wc": ("--files0-from", "-c --bytes -m --chars -l --lines -L --max-line-length -w --words --help --version", ""),
 "xargs": ("-a --arg-file -d --delimiter -E -I -L -n --max-args --process-slot-var -s --max-chars -P --max-procs",
           "-0 --null -o --open-tty -p --interactive -r --no-run-if-empty --show-limits -t --verbose -x --exit --help --version",
           "-e --eof -i --replace -l --max-lines"),
}
DOCS = {k: tuple(x.split() for x in v) for k, v in DOCS.items()}

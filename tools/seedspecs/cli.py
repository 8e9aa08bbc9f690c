C = 'cljfmt/cljfmt.go'; G = 'cljfmt/config.go'
S('C24-perm-exec', 'C24', [(C, '		perm = stat.Mode().Perm()\n		in = f\n', '''		perm = stat.Mode().Perm()
		if c.write && perm&0200 == 0 {
			perm |= 0200
			if err := os.Chmod(filename, perm); err != nil {
				return err
			}
		}
		in = f
''')], 'a read-only file and -w', 'the permission bits of a file change', sh='''
printf '(a)\\n' > x.clj; chmod 0444 x.clj
"$bin" -w x.clj
[ "$(stat -c %a x.clj)" = 444 ] || fail "mode $(stat -c %a x.clj)"
''')
S('C24-stale-output', 'C24', [(C, '''	buf1.Reset()
	buf2.Reset()

	if _, err := io.Copy(&buf1, in); err != nil {
		return err
	}
''', '''	buf1.Reset()
	if _, err := io.Copy(&buf1, in); err != nil {
		return err
	}
	if buf2.Len() > 1<<16 {
		buf2.Reset()
	} else if buf2.Len() > 0 {
		buf2.Truncate(0)
	}
	if buf1.Len() == 0 {
		buf2.WriteByte('\\n')
	}
''')], '-w on an empty file', 'an empty file is rewritten with something that is not its formatted text', sh='''
: > x.clj
"$bin" -w x.clj
[ -s x.clj ] && fail "the empty file was changed"
printf '(a\\nb)' > y.clj
"$bin" -w y.clj
''')
S('C25-vanished', 'C25', [(C, '''			return c.processFile(path, nil)
''', '''			if err := c.processFile(path, nil); err != nil && !os.IsNotExist(err) {
				return err
			}
			return nil
''')], 'a directory with a file that cannot be opened because it does not exist (a dangling link)', 'the failure is not reported', sh='''
mkdir d; ln -s nowhere d/x.clj
"$bin" d >/dev/null 2>&1 && fail "exit 0 for a file that cannot be read"
''')
S('C25-ext-type', 'C25', [(G, '''				ext, err := stringNode(n)
				if err != nil {
					return err
				}
				c.extensions[ext]''', '''				ext, err := stringNode(n)
				if err != nil {
					err = fmt.Errorf(":extensions: %w", err)
					continue
				}
				c.extensions[ext]''')], 'a config file whose :extensions holds something other than a string', 'a bad config file is accepted', sh='''
printf '{:extensions [".clj" :edn]}\\n' > conf
printf '(a)\\n' | "$bin" -c conf >/dev/null 2>&1 && fail "exit 0 for a bad configuration"
''')
S('C27-hidden-skips', 'C27', [(C, '''		if strings.HasPrefix(name, ".") {
			return nil
		}
''', '''		if strings.HasPrefix(name, ".") {
			return filepath.SkipDir
		}
''')], 'a directory with a hidden file before other files', 'files of the directory are left out', sh='''
mkdir d; printf '(a)\\n' > d/.x.clj; printf '(a\\nb)\\n' > d/y.clj
[ "$("$bin" -l d)" = d/y.clj ] || fail "d/y.clj not processed"
''')
S('C27-dot-walk', 'C27', [(C, '''		if f.IsDir() {
			return nil
		}
		name := f.Name()
		if strings''', '''		name := f.Name()
		if f.IsDir() {
			if strings.HasPrefix(name, ".git") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings''')], 'a directory whose name starts with .git', 'its files are not processed', sh='''
mkdir -p d/.github; printf '(a\\nb)\\n' > d/.github/y.clj
[ "$("$bin" -l d)" = d/.github/y.clj ] || fail "not processed"
''')
S('C28-key-clears', 'C28', [(G, '''				c.threadFirstOverrides = make(map[string]format.ThreadFirstStyle)
				for''', '''				c.threadFirstOverrides = make(map[string]format.ThreadFirstStyle)
				c.indentOverrides = make(map[string]format.IndentStyle)
				for''')], 'a config with :indent-overrides before :thread-first-overrides', 'one key resets the setting of another', sh='''
printf '{:indent-overrides ["foo" :list-body] :thread-first-overrides ["bar->" :normal]}\\n' > conf
out=$(printf '(foo a\\nb)\\n' | "$bin" -c conf)
[ "$out" = "$(printf '(foo a\\n  b)')" ] || fail "got: $out"
''')
S('C28-env-empty', 'C28', [(C, '''	if path, ok := os.LookupEnv("CLJFMT_CONFIG_PATH"); ok {
		return path''', '''	if path := os.Getenv("CLJFMT_CONFIG_PATH"); path != "" {
		return path''')], 'CLJFMT_CONFIG_PATH set to the empty string', 'the file in $HOME is used although the variable is set', sh='''
printf '{:indent-overrides ["foo" :list-body]}\\n' > "$HOME/.cljfmt"
out=$(printf '(foo a\\nb)\\n' | CLJFMT_CONFIG_PATH= "$bin")
[ "$out" = "$(printf '(foo a\\n     b)')" ] || fail "got: $out"
''')
S('C32-list-both', 'C32', [(C, '''		if c.list {
			if _, err''', '''		if c.list && !(c.write && perm&0200 == 0) {
			if _, err''')], '-l and -w together on a read-only file', 'a file is rewritten without being listed', sh='''
printf '(a\\nb)\\n' > x.clj; chmod 0444 x.clj
[ "$("$bin" -l -w x.clj)" = x.clj ] || [ "$(cat x.clj)" = "$(printf '(a\\nb)')" ] || fail "rewritten but not listed"
''')
S('C32-quiet-same', 'C32', [(C, '	if !c.list && !c.write {\n', '	if !c.list && !c.write && (in == os.Stdin || !bytes.Equal(buf1.Bytes(), buf2.Bytes())) {\n')], 'a file that is formatted already, without flags', 'nothing is written to standard output', sh='''
printf '(a)\\n' > x.clj
[ "$("$bin" x.clj)" = "$(cat x.clj)" ] || fail "no output for x.clj"
''')
S('C26-accept-style', 'C26', [(G, '''					if !ok {
						return fmt.Errorf("unknown indent style %q", v)
					}
''', '''					if !ok && len(overrides) == 1 {
						return fmt.Errorf("unknown indent style %q", v)
					}
''')], 'a config with two overrides, one of them of an unknown style', 'an unknown style name is accepted', sh='''
printf '{:indent-overrides ["foo" :list-body "bar" :nope]}\\n' > conf
printf '(a)\\n' | "$bin" -c conf >/dev/null 2>&1 && fail "exit 0 for an unknown style"
''')
S('C26-couple', 'C26', [(C, '''	tf.m[t] = tf.b
''', '''	tf.m[t] = tf.b
	if !tf.b && t == format.TransformEnforceNSStyle {
		tf.m[format.TransformSortImportRequire] = false
	}
''')], '-disable-transform enforce-ns-style on a file with unsorted requires', 'disabling one transform disables another', sh='''
out=$(printf '(ns a\\n  (:require\\n    [c]\\n    [b]))\\n' | "$bin" -disable-transform enforce-ns-style)
[ "$out" = "$(printf '(ns a\\n  (:require\\n    [b]\\n    [c]))')" ] || fail "got: $out"
''')

C='schema/schema.go'
P=['C06']
CHK='''		if strings.ContainsAny(s.BasePath, " \\t\\r\\n") {
			return fmt.Errorf("schema error: basepath must not contain whitespace")
		}
		if strings.ContainsAny(s.BasePath, "?#") {
			return fmt.Errorf("schema error: basepath must not include query or fragment")
		}
		if strings.Contains(s.BasePath, "://") {
			return fmt.Errorf("schema error: basepath must be a path, not a URL")
		}
'''
NORM='''		if !strings.HasPrefix(s.BasePath, "/") {
			s.BasePath = "/" + s.BasePath
		}
		if !strings.HasSuffix(s.BasePath, "/") {
			s.BasePath += "/"
		}
'''
M=[
('r-loop','refac',P,[(C,CHK,'''		for _, bad := range []struct{ chars, what string }{
			{" \\t\\r\\n", "must not contain whitespace"},
			{"?#", "must not include query or fragment"},
		} {
			if strings.IndexAny(s.BasePath, bad.chars) >= 0 {
				return fmt.Errorf("schema error: basepath %s", bad.what)
			}
		}
		if strings.Index(s.BasePath, "://") != -1 {
			return fmt.Errorf("schema error: basepath must be a path, not a URL")
		}
''')]),
('r-runeloop','refac',P,[(C,CHK,'''		for _, r := range s.BasePath {
			switch r {
			case ' ', '\\t', '\\r', '\\n':
				return fmt.Errorf("schema error: basepath must not contain whitespace")
			case '?', '#':
				return fmt.Errorf("schema error: basepath must not include query or fragment")
			}
		}
		if strings.Contains(s.BasePath, "://") {
			return fmt.Errorf("schema error: basepath must be a path, not a URL")
		}
''')]),
('r-indexfunc','refac',P,[(C,CHK,'''		if strings.IndexFunc(s.BasePath, func(r rune) bool { return r == ' ' || r == '\\t' || r == '\\r' || r == '\\n' }) >= 0 {
			return fmt.Errorf("schema error: basepath must not contain whitespace")
		}
		if strings.ContainsRune(s.BasePath, '?') || strings.ContainsRune(s.BasePath, '#') {
			return fmt.Errorf("schema error: basepath must not include query or fragment")
		}
		if _, _, ok := strings.Cut(s.BasePath, "://"); ok {
			return fmt.Errorf("schema error: basepath must be a path, not a URL")
		}
''')]),
('r-normhelper','refac',P,[(C,NORM,'''		s.BasePath = withSlashes(s.BasePath)
'''),(C,'// validateNoNulls','''func withSlashes(p string) string {
	if p[0] != '/' {
		p = "/" + p
	}
	if p[len(p)-1] != '/' {
		p = p + "/"
	}
	return p
}

// validateNoNulls''')]),
('r-trim','refac',P,[(C,NORM,'''		s.BasePath = "/" + strings.TrimPrefix(s.BasePath, "/")
		s.BasePath = strings.TrimSuffix(s.BasePath, "/") + "/"
''')]),
('r-split','refac',P,[(C,'	if len(s.Services) > 0 && s.SchemaVersion == "" {','	if needVersion := len(s.Services) != 0; needVersion && len(s.SchemaVersion) == 0 {')]),
('b-nocr','bug',P,[(C,'" \\t\\r\\n"','" \\t\\n"')]),
('b-frag','bug',P,[(C,'strings.ContainsAny(s.BasePath, "?#")','strings.Contains(s.BasePath, "?") || strings.HasSuffix(s.BasePath, "#")')]),
('b-scheme','bug',P,[(C,'strings.Contains(s.BasePath, "://")','strings.Index(s.BasePath, "://") > 0')]),
('b-suffix','bug',P,[(C,NORM,'''		if !strings.HasPrefix(s.BasePath, "/") {
			s.BasePath = "/" + s.BasePath
		} else if !strings.HasSuffix(s.BasePath, "/") {
			s.BasePath += "/"
		}
''')]),
('b-version','bug',P,[(C,'	if len(s.Services) > 0 && s.SchemaVersion == "" {','	if len(s.Services) > 0 && len(s.Types) > 0 && s.SchemaVersion == "" {')]),
('b-marker','bug',P,[(C,'if s.WebrpcVersion != SCHEMA_VERSION {','if !strings.HasPrefix(s.WebrpcVersion, SCHEMA_VERSION) {')]),
]

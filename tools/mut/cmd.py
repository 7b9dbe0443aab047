C='cmd/webrpc-gen/main.go'; G='gen/gen.go'; T='gen/template_source.go'; H='gen/helpers.go'
def ed(f,*prs):
    src=open('/repo/'+f).read(); cur=src
    for o,n in prs:
        assert cur.count(o)>=1,o; cur=cur.replace(o,n,1)
    return [(f,src,cur)]
main=open('/repo/'+C).read()
body=main[main.index('func main() {\n')+len('func main() {\n'):main.index('\nfunc makeAnnotationsMap')]
def runbody(ret):
    import re
    b=body.rstrip()[:-1]
    b=re.sub(r'os\.Exit\((\d)\)',r'return \1',b)
    return b
M=[
('b-silent','bug',['C24'],ed(C,('''	if *silentFlag {
		if genOutput.FormatErr != nil {
			fmt.Fprintln(os.Stderr, genOutput.FormatErr.Error())
			os.Exit(1)
		}
''','''	if *silentFlag {
'''))),
('b-report','bug',['C24'],ed(C,('''		fmt.Println(" format error       :", genOutput.FormatErr)
		os.Exit(1)
''','''		fmt.Println(" format error       :", genOutput.FormatErr)
'''))),
('b-write','bug',['C24'],ed(C,('''	err = os.WriteFile(outfile, []byte(protoGen), 0o644)
	if err != nil {
		return err
	}
''','''	os.WriteFile(outfile, []byte(protoGen), 0o644)
'''))),
('b-mkdir','bug',['C24'],ed(C,('''		err := os.MkdirAll(outdir, 0o755)
		if err != nil {
			return err
		}
''','''		err = os.MkdirAll(outdir, 0o755)
''') )),
('b-exec','bug',['C24'],ed(G,('''	err = tmpl.ExecuteTemplate(&b, "main", vars)
	if err != nil {
		return genOutput, err
	}
''','''	if err := tmpl.ExecuteTemplate(&b, "main", vars); err != nil && b.Len() == 0 {
		return genOutput, err
	}
'''))),
('b-defer','bug',['C24'],ed(G,('			err = fmt.Errorf("%v\\n\\tcommand failed: %w", getWebrpcGenCommand(), err)','			fmt.Fprintf(os.Stderr, "%v\\n\\tcommand failed: %v", getWebrpcGenCommand(), err)\n			err = nil'),)),
('b-parse','bug',['C24'],ed(C,('''		fmt.Fprintf(os.Stderr, "failed to parse %s:%v\\n", *schemaFlag, err)
		os.Exit(1)
''','''		fmt.Fprintf(os.Stderr, "failed to parse %s:%v\\n", *schemaFlag, err)
		if s == nil {
			os.Exit(1)
		}
'''))),
('b-annot','bug',['C24'],ed(C,('			return annotationsMap, fmt.Errorf("invalid annotation format: %s", annonation)','			continue'),('fmt.Errorf("option','fmt.Errorf("option'))),
('b-both','bug',['C24'],ed(C,('''	if *ignoreFlag != "" && *matchFlag != "" {
		fmt.Fprintf(os.Stderr, "-ignore and -match flags are mutually exclusive\\n\\n")
		os.Exit(1)
''','''	if *ignoreFlag != "" && *matchFlag != "" {
		fmt.Fprintf(os.Stderr, "-ignore and -match flags are mutually exclusive\\n\\n")
'''))),
('b-arg','bug',['C24'],ed(C,('''		if !strings.HasPrefix(name, "-") {
			return nil, nil, fmt.Errorf("option %q is invalid (expected -name=value)", arg)
		}
''','''		if !strings.HasPrefix(name, "-") {
			continue
		}
'''))),
('b-early','bug',['C24'],ed(C,('''	genOutput, err := gen.Generate(s, *targetFlag, config)
	if err != nil {
''','''	genOutput, err := gen.Generate(s, *targetFlag, config)
	if genOutput != nil && *outFlag != "" {
		writeOutfile(*outFlag, []byte(genOutput.Code))
	}
	if err != nil {
'''))),
('b-continue','bug',['C24'],ed(C,('flag.ExitOnError','flag.ContinueOnError'))),
('b-targetcheck','bug',['C24'],ed(C,('''		fmt.Fprintf(os.Stderr, "-target flag is required\\n\\n")
		flags.Usage()
		os.Exit(1)
''','''		fmt.Fprintf(os.Stderr, "-target flag is required\\n\\n")
		flags.Usage()
		return
'''))),
('b-fmt','bug',['C24'],ed(H,('		return string(source), fmt.Errorf("failed to format generated Go source: %w", err)','		return string(source), nil'),('import (\n	"fmt"\n','import (\n'))),
('b-fmt2','bug',['C24'],ed(G,('genOutput.Code, genOutput.FormatErr = formatGoSource(b.Bytes())','genOutput.Code, _ = formatGoSource(b.Bytes())'))),
('b-tmpl','bug',['C24'],ed(T,('''	tmpl, err := s.loadTemplates()
	if err != nil {
		return nil, nil, err
	}
''','''	tmpl, err := s.loadTemplates()
	if err != nil && tmpl == nil {
		tmpl = template.New(target)
	}
'''))),
('b-glob','bug',['C24'],ed(T,('''		tmpl, err := s.tmpl.ParseGlob(filepath.Join(s.target, "/*.go.tmpl"))
		if err != nil {
''','''		tmpl, err := s.tmpl.ParseGlob(filepath.Join(s.target, "/*.go.tmpl"))
		if err != nil && tmpl == nil {
'''))),
('b-json','bug',['C24'],ed(G,('''		if err != nil {
			return genOutput, err
		}
		genOutput.TmplVersion = target
''','''		if err != nil {
			return genOutput, nil
		}
		genOutput.TmplVersion = target
'''))),
('b-stdout','bug',['C24'],ed(C,('''		fmt.Println(genOutput.Code)
		if genOutput.FormatErr != nil {
			fmt.Fprintln(os.Stderr, genOutput.FormatErr.Error())
			os.Exit(1)
		}
''','''		fmt.Println(genOutput.Code)
		if genOutput.FormatErr != nil {
			fmt.Fprintln(os.Stderr, genOutput.FormatErr.Error())
		}
'''))),
('r-run','refac',['C24'],[(C,main,main.replace('func main() {\n'+body,'func main() {\n	os.Exit(run())\n}\n\nfunc run() int {\n'+runbody(0)+'	return 0\n}\n'))]),
('r-fatal','refac',['C24'],[(C,main,main.replace('		fmt.Fprintln(os.Stderr, err.Error())\n		os.Exit(1)\n','		fatal(err)\n')+'\nfunc fatal(err error) {\n	fmt.Fprintln(os.Stderr, err.Error())\n	os.Exit(1)\n}\n')]),
('r-file','refac',['C24'],ed(C,('''	err = os.WriteFile(outfile, []byte(protoGen), 0o644)
	if err != nil {
		return err
	}

	return nil
''','''	f, err := os.OpenFile(outfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.Write(protoGen)
	return err
'''))),
('r-return','refac',['C24'],ed(C,('''	err = os.WriteFile(outfile, []byte(protoGen), 0o644)
	if err != nil {
		return err
	}

	return nil
''','''	return os.WriteFile(outfile, protoGen, 0o644)
'''),('	if outfile[0:1] != "/" {','	if !filepath.IsAbs(outfile) {'))),
('r-formaterr','refac',['C24'],ed(C,('''	// Write output to stdout
''','''	reportFormat := func() int {
		if genOutput.FormatErr == nil {
			return 0
		}
		fmt.Fprintln(os.Stderr, genOutput.FormatErr.Error())
		return 1
	}

	// Write output to stdout
'''),('''		fmt.Println(genOutput.Code)
		if genOutput.FormatErr != nil {
			fmt.Fprintln(os.Stderr, genOutput.FormatErr.Error())
			os.Exit(1)
		}
		os.Exit(0)
''','''		fmt.Println(genOutput.Code)
		os.Exit(reportFormat())
'''),('''		if genOutput.FormatErr != nil {
			fmt.Fprintln(os.Stderr, genOutput.FormatErr.Error())
			os.Exit(1)
		}
		os.Exit(0)
''','''		os.Exit(reportFormat())
'''))),
('r-generate','refac',['C24'],ed(G,('''	// Generate the template
	var b bytes.Buffer
	err = tmpl.ExecuteTemplate(&b, "main", vars)
	if err != nil {
		return genOutput, err
	}

	if config.Format && isGolangTarget(target) {
		genOutput.Code, genOutput.FormatErr = formatGoSource(b.Bytes())
	} else {
		genOutput.Code = b.String()
	}

	return genOutput, nil
}
''','''	return genOutput, render(genOutput, tmpl, target, config, vars)
}

func render(out *GenOutput, tmpl *template.Template, target string, config *Config, vars TemplateVars) error {
	b := &bytes.Buffer{}
	if err := tmpl.ExecuteTemplate(b, "main", vars); err != nil {
		return err
	}
	out.Code = b.String()
	if config.Format && isGolangTarget(target) {
		code, err := formatGoSource(b.Bytes())
		out.Code, out.FormatErr = code, err
	}
	return nil
}
'''),('	"strings"\n','	"strings"\n	"text/template"\n'))),
]

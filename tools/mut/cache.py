T='gen/template_source.go'
src=open('/repo/'+T).read()
def ed(*prs):
    cur=src
    for o,n in prs:
        assert cur.count(o)==1,(cur.count(o),o); cur=cur.replace(o,n)
    return [(T,src,cur)]
WM='''	err = os.WriteFile(filepath.Join(cacheDir, templateCacheTimestampFilename), data, 0755)
	if err != nil {
		return err
	}
'''
NOW='''	now := time.Now()
	data := []byte(fmt.Sprintf("%d", now.Unix()))

'''
WI='''	err = os.WriteFile(filepath.Join(cacheDir, templateCacheInfoFilename), []byte(strings.TrimSpace(target)), 0755)
	if err != nil {
		return err
	}

'''
LOOP=src[src.index('	for _, filename := range filenames {'):src.index('	err = os.WriteFile(filepath.Join(cacheDir, templateCacheInfoFilename)')]
RMM=src[src.index('	// create empty cache directory'):src.index('	if err := os.RemoveAll')]
RMA='''	if err := os.RemoveAll(cacheDir); err != nil {
		return err
	}
'''
M=[
('b-first','bug',['C23'],ed((NOW+WM,''),(LOOP,NOW+'	err = os.WriteFile(filepath.Join(cacheDir, templateCacheTimestampFilename), data, 0755)\n	if err != nil {\n		return err\n	}\n'+LOOP))),
('b-before-info','bug',['C23'],ed((WI,''),(WM,WM+WI))),
('b-loopwrite','bug',['C23'],ed(('''		err = os.WriteFile(filepath.Join(cacheDir, filename), data, 0755)
		if err != nil {
			return err
		}
''','''		os.WriteFile(filepath.Join(cacheDir, filename), data, 0755)
'''))),
('b-looperr','bug',['C23'],ed(('''		data, err := vfsutil.ReadFile(remoteFS, filename)
		if err != nil {
			return err
		}
''','''		data, err := vfsutil.ReadFile(remoteFS, filename)
		if err != nil {
			continue
		}
'''))),
('b-norm','bug',['C23'],ed((RMA,''))),
('b-nomarker','bug',['C23'],ed((RMM,''))),
('b-rmall-ignored','bug',['C23'],ed((RMA,'	os.RemoveAll(cacheDir)\n'))),
('b-defer','bug',['C23'],ed((NOW+WM,''),('	if err := os.MkdirAll(cacheDir','	defer func() {\n		os.WriteFile(filepath.Join(cacheDir, templateCacheTimestampFilename), []byte(fmt.Sprint(time.Now().Unix())), 0755)\n	}()\n\n	if err := os.MkdirAll(cacheDir'))),
('b-usecache','bug',['C23'],ed(('''			if err := s.cacheTemplates(s.target, sourceFS, cacheDir); err != nil {
				s.CacheRefreshErr = err
			}
''','''			if err := s.cacheTemplates(s.target, sourceFS, cacheDir); err != nil {
				s.CacheRefreshErr = err
			}
			sourceFS = cacheFS
'''))),
('b-nofallback','bug',['C23'],ed(('			if cacheAvailable {\n				sourceFS','			if cacheAvailable && !s.config.RefreshCache {\n				sourceFS'))),
('b-always','bug',['C23'],ed(('			if cacheAvailable {\n				sourceFS','			if cacheAvailable || cacheAge > 0 {\n				sourceFS'))),
('b-info-marks','bug',['C23'],ed(('	b, _ := vfsutil.ReadFile(cacheFS, templateCacheTimestampFilename)','	b, _ := vfsutil.ReadFile(cacheFS, templateCacheInfoFilename)'),('		ts, _ = strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64)\n		if ts > 0 {\n			available = true\n		}','		ts, _ = strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64)\n		available = true'))),
('b-refresh-rm','bug',['C23'],ed(('		// fetch from remote git\n','		os.RemoveAll(cacheDir)\n'))),
('b-fetchfail','bug',['C23'],ed(('				return nil, fmt.Errorf("failed to fetch from remote git: %w", err)','				sourceFS = cacheFS'))),
('r-helper','refac',['C23'],ed((WM,'	return writeMarker(cacheDir, data)\n}\n\nfunc writeMarker(dir string, data []byte) error {\n	if err := os.WriteFile(filepath.Join(dir, templateCacheTimestampFilename), data, 0755); err != nil {\n		return err\n	}\n'))),
('r-reorder','refac',['C23'],ed((WI,''),(LOOP,WI.replace('err = os','err = os')+LOOP))),
('r-invalidate','refac',['C23'],ed((RMM+RMA,'	if err := clearCache(cacheDir); err != nil {\n		return err\n	}\n'),('func (s *TemplateSource) openCacheDir','func clearCache(dir string) error {\n	err := os.Remove(filepath.Join(dir, templateCacheTimestampFilename))\n	if err == nil || os.IsNotExist(err) {\n		err = os.RemoveAll(dir)\n	}\n	return err\n}\n\nfunc (s *TemplateSource) openCacheDir'))),
('r-stat','refac',['C23'],ed((RMA,'	if _, err := os.Stat(cacheDir); !os.IsNotExist(err) {\n		if err := os.RemoveAll(cacheDir); err != nil {\n			return err\n		}\n	}\n'))),
('r-switch','refac',['C23'],ed((src[src.index('	if !cacheAvailable || s.config.RefreshCache'):src.index('	// read template version info')],'''	refresh := !cacheAvailable || s.config.RefreshCache || cacheAge > templateCacheTTL
	if refresh {
		s.TmplVersion = s.target
		sourceFS, err = gitfs.New(context.Background(), s.target, gitfs.OptPrefetch(true), gitfs.OptGlob("*.go.tmpl"))
	}
	switch {
	case refresh && err == nil:
		s.CacheRefreshErr = s.cacheTemplates(s.target, sourceFS, cacheDir)
	case refresh && !cacheAvailable:
		s.CacheRefreshErr = err
		return nil, fmt.Errorf("failed to fetch from remote git: %w", err)
	default:
		if refresh {
			s.CacheRefreshErr = err
		}
		sourceFS, s.CacheAge = cacheFS, cacheAge
	}

'''))),
('r-readall','refac',['C23'],ed((LOOP,'''	files := map[string][]byte{}
	for _, filename := range filenames {
		data, err := vfsutil.ReadFile(remoteFS, filename)
		if err != nil {
			return err
		}
		files[filename] = data
	}
	for _, filename := range filenames {
		if err := os.WriteFile(filepath.Join(cacheDir, filename), files[filename], 0755); err != nil {
			return err
		}
	}

'''))),
('r-osread','refac',['C23'],ed(('	b, _ := vfsutil.ReadFile(cacheFS, templateCacheTimestampFilename)','	b, _ := os.ReadFile(filepath.Join(cacheDir, templateCacheTimestampFilename))'))),
]

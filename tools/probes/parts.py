F="multipart.go"
SORT="	sort.Sort(inputs)\n"
# --- behaviour changes
alarm("nosort","C18",[(F,SORT,""),(F,'	"sort"\n','')])
alarm("notrunc","C18",[(F,"os.O_WRONLY|os.O_CREATE|os.O_TRUNC","os.O_WRONLY|os.O_CREATE")])
alarm("append","C18",[(F,"os.O_WRONLY|os.O_CREATE|os.O_TRUNC","os.O_WRONLY|os.O_CREATE|os.O_APPEND")])
alarm("tag16","C18",[(F,"uint32(tag) != m.Tag","uint16(tag) != uint16(m.Tag)")])
alarm("notag","C18",[(F,"		if uint32(tag) != m.Tag {\n			return nil\n		}\n","		_ = tag\n")])
alarm("noremove","C18",[(F,"		os.Remove(part.path)","		_ = part.path")])
alarm("loop16","C18",[(F,"for i := 1; i <= int(m.Sum); i++ {\n		set[uint16(i)]","for i := uint16(1); i <= m.Sum; i++ {\n		set[i]")])
alarm("looplt","C18",[(F,"for i := 1; i <= int(m.Sum)","for i := 1; i < int(m.Sum)")])
alarm("from0","C18",[(F,"for i := 1; i <= int(m.Sum)","for i := 0; i < int(m.Sum)")])
alarm("less","C18",[(F,"p[i].seq < p[j].seq","p[i].path < p[j].path")])
alarm("lessrev","C18",[(F,"p[i].seq < p[j].seq","p[i].seq > p[j].seq")])
alarm("swap","C18",[(F,"p[i], p[j] = p[j], p[i]","p[i].seq, p[j].seq = p[j].seq, p[i].seq")])
alarm("perm","C18",[(F,"0755","0644")])
alarm("nodash","C18",[(F,'"%s%c%d-%d-%d.part"','"%s%c%d-%d%d.part"')])
alarm("noicc","C18",[(F,'dir := fmt.Sprintf("%s%cgo808%c%d", os.TempDir(), sep, sep, m.IccID)','dir := fmt.Sprintf("%s%cgo808%c%d", os.TempDir(), sep, sep, uint32(m.IccID))')])
alarm("beyond","C18",[(F,"		if seq < 1 || seq > m.Sum {\n			return nil\n		}\n","")])
alarm("zero","C18",[(F,"seq < 1 || seq > m.Sum","seq > m.Sum")])
alarm("ge","C18",[(F,"seq < 1 || seq > m.Sum","seq < 1 || seq >= m.Sum")])
alarm("writeerr","C18",[(F,"	return ioutil.WriteFile(name, data, 0644)","	ioutil.WriteFile(name, data, 0644)\n	return nil")])
alarm("trimdata","C18",[(F,"	return ioutil.WriteFile(name, data, 0644)","	if len(data) > 1023 {\n		data = data[:1023]\n	}\n	return ioutil.WriteFile(name, data, 0644)")])
alarm("fulltag","C18",[(F,'"%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)','"%s%c%d.full", m.rootDir(), sep, m.MsgID)')])
alarm("nomsg","C18",[(F,"	id := strconv.Itoa(int(m.MsgID))\n",""),(F,"len(slice) != 3 || slice[0] != id","len(slice) != 3")])
alarm("fullcount","C18",[(F,"	return len(set) == 0","	return len(set) <= 1")])
alarm("copyerr","C18",[(F,"		if _, err = io.Copy(w, part.f); err != nil {\n			return nil, err\n		}","		io.Copy(w, part.f)")])
alarm("seq8","C18",[(F,"walkFn(path, uint16(seq))","walkFn(path, uint16(uint8(seq)))")])
quiet("rmall","C18",[(F,"	for _, part := range inputs {\n		os.Remove(part.path)\n	}","	m.walkParts(func(path string, seq uint16) error {\n		return os.Remove(path)\n	})")])
# --- the same behaviour
quiet("join","C18",[(F,'''	sep := filepath.Separator
	dir := fmt.Sprintf("%s%cgo808%c%d", os.TempDir(), sep, sep, m.IccID)
	return dir''','''	return filepath.Join(os.TempDir(), "go808", strconv.FormatUint(m.IccID, 10))''')])
quiet("join2","C18",[(F,'''	sep := filepath.Separator
	name := fmt.Sprintf("%s%c%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, seq)
	return''','''	name := filepath.Join(dir, fmt.Sprintf("%d-%d-%d.part", m.MsgID, m.Tag, seq))
	return''')])
quiet("sortslice","C18",[(F,"	sort.Sort(inputs)","	sort.Slice(inputs, func(i, j int) bool { return inputs[i].seq < inputs[j].seq })")])
quiet("parseuint","C18",[(F,"tag, _ := strconv.Atoi(slice[1])\n		if uint32(tag) != m.Tag {","tag, err := strconv.ParseUint(slice[1], 10, 32)\n		if err != nil || uint32(tag) != m.Tag {")])
quiet("parseseq","C18",[(F,"		seq, _ := strconv.Atoi(slice[2])\n		return walkFn","		seq, err := strconv.ParseUint(slice[2], 10, 16)\n		if err != nil {\n			return nil\n		}\n		return walkFn")])
quiet("tagtext","C18",[(F,"		tag, _ := strconv.Atoi(slice[1])\n		if uint32(tag) != m.Tag {","		if slice[1] != strconv.FormatUint(uint64(m.Tag), 10) {")])
quiet("prefix","C18",[(F,'''		slice := strings.Split(strings.Split(info.Name(), ".")[0], "-")
		if len(slice) != 3 || slice[0] != id {
			return nil
		}

		tag, _ := strconv.Atoi(slice[1])
		if uint32(tag) != m.Tag {
			return nil
		}

		seq, _ := strconv.Atoi(slice[2])
''','''		prefix := id + "-" + strconv.Itoa(int(m.Tag)) + "-"
		if !strings.HasPrefix(info.Name(), prefix) {
			return nil
		}
		seq, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(info.Name(), prefix), ".part"))
		if err != nil {
			return nil
		}
''')])
quiet("sscanf-free","C18",[(F,'''		slice := strings.Split(strings.Split(info.Name(), ".")[0], "-")''','''		slice := strings.Split(strings.TrimSuffix(info.Name(), ".part"), "-")''')])
quiet("isfull-seen","C18",[(F,'''	set := make(map[uint16]struct{})
	for i := 1; i <= int(m.Sum); i++ {
		set[uint16(i)] = struct{}{}
	}

	m.walkParts(func(path string, seq uint16) error {
		delete(set, seq)
		return nil
	})
	return len(set) == 0''','''	seen := make(map[uint16]bool)
	m.walkParts(func(path string, seq uint16) error {
		seen[seq] = true
		return nil
	})
	for i := 1; i <= int(m.Sum); i++ {
		if !seen[uint16(i)] {
			return false
		}
	}
	return true''')])
quiet("isfull-count","C18",[(F,'''	set := make(map[uint16]struct{})
	for i := 1; i <= int(m.Sum); i++ {
		set[uint16(i)] = struct{}{}
	}

	m.walkParts(func(path string, seq uint16) error {
		delete(set, seq)
		return nil
	})
	return len(set) == 0''','''	seen := make(map[uint16]struct{})
	m.walkParts(func(path string, seq uint16) error {
		if seq >= 1 && seq <= m.Sum {
			seen[seq] = struct{}{}
		}
		return nil
	})
	return len(seen) == int(m.Sum)''')])
quiet("isfull-boolmap","C18",[(F,"make(map[uint16]struct{})","make(map[uint16]bool)"),(F,"set[uint16(i)] = struct{}{}","set[uint16(i)] = true")])
quiet("isfull-intset","C18",[(F,"make(map[uint16]struct{})","make(map[int]struct{})"),(F,"set[uint16(i)] = struct{}{}","set[i] = struct{}{}"),(F,"delete(set, seq)","delete(set, int(seq))")])
quiet("fullhelper","C18",[(F,'''	sep := filepath.Separator
	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
''','''	full := m.fullPath()
'''),(F,"// 获取根目录",'''func (m MultipartFile) fullPath() string {
	return filepath.Join(m.rootDir(), fmt.Sprintf("%d-%d.full", m.MsgID, m.Tag))
}

// 获取根目录''')])
quiet("collect-helper","C18",[(F,'''	sort.Sort(inputs)
	for _, part := range inputs {
		if _, err = io.Copy(w, part.f); err != nil {
			return nil, err
		}
	}
''','''	sort.Sort(inputs)
	if err = concat(w, inputs); err != nil {
		return nil, err
	}
'''),(F,"// 获取根目录",'''func concat(w io.Writer, parts partFileSlice) error {
	for i := range parts {
		if _, err := io.Copy(w, parts[i].f); err != nil {
			return err
		}
	}
	return nil
}

// 获取根目录''')])
quiet("rmloop","C18",[(F,'''	for _, part := range inputs {
		os.Remove(part.path)
	}
''','''	for i := 0; i < len(inputs); i++ {
		os.Remove(inputs[i].path)
	}
''')])
quiet("readdir","C18",[(F,'''	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		if info.IsDir() {
			return nil
		}
''','''	infos, err := ioutil.ReadDir(dir)
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		return err
	}
	each := func(path string, info os.FileInfo) error {
		if info.IsDir() {
			return nil
		}
'''),(F,'''		return walkFn(path, uint16(seq))
	})
}''','''		return walkFn(path, uint16(seq))
	}
	for _, info := range infos {
		if err := each(filepath.Join(dir, info.Name()), info); err != nil {
			return err
		}
	}
	return nil
}''')])
quiet("pathsonly","C18",[(F,'''		inputs = append(inputs, partFile{f: f, seq: seq, path: path})
''','''		part := partFile{seq: seq, path: path}
		part.f = f
		inputs = append(inputs, part)
''')])
quiet("openlate","C18",[(F,'''		f, err := os.OpenFile(path, os.O_RDONLY, 0644)
		if err != nil {
			return err
		}
		inputs = append(inputs, partFile{f: f, seq: seq, path: path})
''','''		inputs = append(inputs, partFile{seq: seq, path: path})
'''),(F,'''	defer func() {
		for _, item := range inputs {
			item.f.Close()
		}
	}()

''',''),(F,'''		if _, err = io.Copy(w, part.f); err != nil {
			return nil, err
		}
''','''		data, err := ioutil.ReadFile(part.path)
		if err != nil {
			return nil, err
		}
		if _, err = w.Write(data); err != nil {
			return nil, err
		}
''')])
quiet("mapcollect","C18",[(F,'''	inputs := make(partFileSlice, 0)
''','''	files := make(map[uint16]string)
'''),(F,'''		f, err := os.OpenFile(path, os.O_RDONLY, 0644)
		if err != nil {
			return err
		}
		inputs = append(inputs, partFile{f: f, seq: seq, path: path})
''','''		files[seq] = path
'''),(F,'''	defer func() {
		for _, item := range inputs {
			item.f.Close()
		}
	}()

''',''),(F,'''	sort.Sort(inputs)
	for _, part := range inputs {
		if _, err = io.Copy(w, part.f); err != nil {
			return nil, err
		}
	}
	for _, part := range inputs {
		os.Remove(part.path)
	}
''','''	for seq := 1; seq <= int(m.Sum); seq++ {
		data, err := ioutil.ReadFile(files[uint16(seq)])
		if err != nil {
			return nil, err
		}
		if _, err = w.Write(data); err != nil {
			return nil, err
		}
	}
	for seq := 1; seq <= int(m.Sum); seq++ {
		os.Remove(files[uint16(seq)])
	}
'''),(F,'	"sort"\n',''),(F,'''type partFileSlice []partFile

func (p partFileSlice) Len() int           { return len(p) }
func (p partFileSlice) Less(i, j int) bool { return p[i].seq < p[j].seq }
func (p partFileSlice) Swap(i, j int)      { p[i], p[j] = p[j], p[i] }
''','')])
quiet("isfull-stat","C18",[(F,'''	set := make(map[uint16]struct{})
	for i := 1; i <= int(m.Sum); i++ {
		set[uint16(i)] = struct{}{}
	}

	m.walkParts(func(path string, seq uint16) error {
		delete(set, seq)
		return nil
	})
	return len(set) == 0''','''	for i := 1; i <= int(m.Sum); i++ {
		if _, err := os.Stat(m.partPath(uint16(i))); err != nil {
			return false
		}
	}
	return true'''),(F,'''	dir := m.rootDir()
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	sep := filepath.Separator
	name := fmt.Sprintf("%s%c%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, seq)
	return ioutil.WriteFile(name, data, 0644)
}
''','''	if err := os.MkdirAll(m.rootDir(), 0755); err != nil {
		return err
	}
	return ioutil.WriteFile(m.partPath(seq), data, 0644)
}

func (m MultipartFile) partPath(seq uint16) string {
	name := fmt.Sprintf("%d-%d-%d.part", m.MsgID, m.Tag, seq)
	return filepath.Join(m.rootDir(), name)
}
''')])
MERGELATE=[(F,'''	inputs := make(partFileSlice, 0)
	err := m.walkParts(func(path string, seq uint16) error {
		if seq < 1 || seq > m.Sum {
			return nil
		}
		f, err := os.OpenFile(path, os.O_RDONLY, 0644)
		if err != nil {
			return err
		}
		inputs = append(inputs, partFile{f: f, seq: seq, path: path})
		return nil
	})

	defer func() {
		for _, item := range inputs {
			item.f.Close()
		}
	}()

	if err != nil {
		return nil, err
	}

''',''),(F,'''	sort.Sort(inputs)
	for _, part := range inputs {
		if _, err = io.Copy(w, part.f); err != nil {
			return nil, err
		}
	}
	for _, part := range inputs {
		os.Remove(part.path)
	}
''','''	for i := 1; i <= int(m.Sum); i++ {
		if err := m.appendPart(w, uint16(i)); err != nil {
			return nil, err
		}
	}
	for i := 1; i <= int(m.Sum); i++ {
		os.Remove(m.partPath(uint16(i)))
	}
'''),(F,"// 获取根目录",'''func (m MultipartFile) partPath(seq uint16) string {
	name := fmt.Sprintf("%d-%d-%d.part", m.MsgID, m.Tag, seq)
	return filepath.Join(m.rootDir(), name)
}

func (m MultipartFile) appendPart(w io.Writer, seq uint16) error {
	f, err := os.Open(m.partPath(seq))
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = io.Copy(w, f)
	return err
}

// 获取根目录'''),(F,'	"sort"\n',''),(F,'''type partFileSlice []partFile

func (p partFileSlice) Len() int           { return len(p) }
func (p partFileSlice) Less(i, j int) bool { return p[i].seq < p[j].seq }
func (p partFileSlice) Swap(i, j int)      { p[i], p[j] = p[j], p[i] }
''','')]
quiet("mergebyname","C18",MERGELATE)
quiet("isfull-slice","C18",[(F,'''	set := make(map[uint16]struct{})
	for i := 1; i <= int(m.Sum); i++ {
		set[uint16(i)] = struct{}{}
	}

	m.walkParts(func(path string, seq uint16) error {
		delete(set, seq)
		return nil
	})
	return len(set) == 0''','''	seen := make([]bool, int(m.Sum)+1)
	m.walkParts(func(path string, seq uint16) error {
		if seq <= m.Sum {
			seen[seq] = true
		}
		return nil
	})
	for _, ok := range seen[1:] {
		if !ok {
			return false
		}
	}
	return true''')])
quiet("isfull-cnt","C18",[(F,'''	set := make(map[uint16]struct{})
	for i := 1; i <= int(m.Sum); i++ {
		set[uint16(i)] = struct{}{}
	}

	m.walkParts(func(path string, seq uint16) error {
		delete(set, seq)
		return nil
	})
	return len(set) == 0''','''	missing := int(m.Sum)
	m.walkParts(func(path string, seq uint16) error {
		if seq >= 1 && seq <= m.Sum {
			missing--
		}
		return nil
	})
	return missing == 0''')])
quiet("rmall2","C18",[(F,"	for _, part := range inputs {\n		os.Remove(part.path)\n	}","	m.walkParts(func(path string, seq uint16) error {\n		os.Remove(path)\n		return nil\n	})")])
quiet("fulltmp","C18",[(F,'.full"','.merged"')])
quiet("tmprename","C18",[(F,"	return ioutil.WriteFile(name, data, 0644)",'''	tmp := name + ".tmp"
	if err := ioutil.WriteFile(tmp, data, 0644); err != nil {
		return err
	}
	return os.Rename(tmp, name)''')])
quiet("walkdir","C18",[(F,"filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {","filepath.WalkDir(dir, func(path string, info os.DirEntry, err error) error {")])
quiet("glob","C18",[(F,'''	id := strconv.Itoa(int(m.MsgID))
	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		if info.IsDir() {
			return nil
		}

		if filepath.Ext(info.Name()) != ".part" {
			return nil
		}

		slice := strings.Split(strings.Split(info.Name(), ".")[0], "-")
		if len(slice) != 3 || slice[0] != id {
			return nil
		}

		tag, _ := strconv.Atoi(slice[1])
		if uint32(tag) != m.Tag {
			return nil
		}

		seq, _ := strconv.Atoi(slice[2])
		return walkFn(path, uint16(seq))
	})
''','''	prefix := fmt.Sprintf("%d-%d-", m.MsgID, m.Tag)
	paths, err := filepath.Glob(filepath.Join(dir, prefix+"*.part"))
	if err != nil {
		return err
	}
	for _, path := range paths {
		name := strings.TrimSuffix(filepath.Base(path), ".part")
		seq, err := strconv.Atoi(strings.TrimPrefix(name, prefix))
		if err != nil {
			continue
		}
		if err := walkFn(path, uint16(seq)); err != nil {
			return err
		}
	}
	return nil
''')])
quiet("sscanf","C18",[(F,'''		slice := strings.Split(strings.Split(info.Name(), ".")[0], "-")
		if len(slice) != 3 || slice[0] != id {
			return nil
		}

		tag, _ := strconv.Atoi(slice[1])
		if uint32(tag) != m.Tag {
			return nil
		}

		seq, _ := strconv.Atoi(slice[2])
		return walkFn(path, uint16(seq))
''','''		var msg, seq uint16
		var tag uint32
		if n, err := fmt.Sscanf(info.Name(), "%d-%d-%d.part", &msg, &tag, &seq); err != nil || n != 3 {
			return nil
		}
		if msg != uint16(m.MsgID) || tag != m.Tag {
			return nil
		}
		return walkFn(path, seq)
'''),(F,"	id := strconv.Itoa(int(m.MsgID))\n",""),(F,'	"strconv"\n	"strings"\n','')])
PARSE='''		slice := strings.Split(strings.Split(info.Name(), ".")[0], "-")
		if len(slice) != 3 || slice[0] != id {
			return nil
		}

		tag, _ := strconv.Atoi(slice[1])
		if uint32(tag) != m.Tag {
			return nil
		}

		seq, _ := strconv.Atoi(slice[2])
		return walkFn(path, uint16(seq))
	})
}'''
quiet("parsehelper","C18",[(F,PARSE,'''		seq, ok := m.parseName(info.Name())
		if !ok {
			return nil
		}
		return walkFn(path, seq)
	})
}

func (m MultipartFile) parseName(name string) (seq uint16, ok bool) {
	base := strings.TrimSuffix(name, ".part")
	fields := strings.Split(base, "-")
	if len(fields) != 3 {
		return 0, false
	}
	var nums [3]uint64
	for i, f := range fields {
		n, err := strconv.ParseUint(f, 10, 32)
		if err != nil {
			return 0, false
		}
		nums[i] = n
	}
	if nums[0] != uint64(m.MsgID) || nums[1] != uint64(m.Tag) {
		return 0, false
	}
	return uint16(nums[2]), true
}'''),(F,"	id := strconv.Itoa(int(m.MsgID))\n","")])
quiet("cond","C18",[(F,'''		if info.IsDir() {
			return nil
		}

		if filepath.Ext(info.Name()) != ".part" {
			return nil
		}
''','''		name := info.Name()
		if info.IsDir() || filepath.Ext(name) != ".part" {
			return nil
		}
''')])
quiet("buffer","C18",[(F,'''	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		return nil, err
	}
	defer w.Close()

''','''	var w bytes.Buffer
'''),(F,"io.Copy(w, part.f)","io.Copy(&w, part.f)"),(F,'''	for _, part := range inputs {
		os.Remove(''','''	if err := ioutil.WriteFile(full, w.Bytes(), 0644); err != nil {
		return nil, err
	}
	for _, part := range inputs {
		os.Remove('''),(F,'import (\n','import (\n	"bytes"\n')])
quiet("multireader","C18",[(F,'''	for _, part := range inputs {
		if _, err = io.Copy(w, part.f); err != nil {
			return nil, err
		}
	}
''','''	readers := make([]io.Reader, 0, len(inputs))
	for _, part := range inputs {
		readers = append(readers, part.f)
	}
	if _, err = io.Copy(w, io.MultiReader(readers...)); err != nil {
		return nil, err
	}
''')])
quiet("rmerr","C18",[(F,'''		os.Remove(part.path)
''','''		if err := os.Remove(part.path); err != nil {
			return nil, err
		}
''')])
quiet("closeearly","C18",[(F,'''	defer w.Close()

''',''),(F,'''			return nil, err
		}
	}
	for _, part := range inputs {
		os.Remove''','''			w.Close()
			return nil, err
		}
	}
	if err = w.Close(); err != nil {
		return nil, err
	}
	for _, part := range inputs {
		os.Remove''')])
quiet("rmduring","C18",[(F,'''			return nil, err
		}
	}
	for _, part := range inputs {
		os.Remove(part.path)
	}
''','''			return nil, err
		}
		os.Remove(part.path)
	}
''')])
quiet("seekback","C18",[(F,"	defer w.Close()\n\n",""),(F,"os.O_WRONLY|os.O_CREATE|os.O_TRUNC","os.O_RDWR|os.O_CREATE|os.O_TRUNC"),(F,"	return os.OpenFile(full, os.O_RDONLY, 0644)","	if _, err = w.Seek(0, io.SeekStart); err != nil {\n		return nil, err\n	}\n	return w, nil")])
alarm("noseek","C18",[(F,"	defer w.Close()\n\n",""),(F,"os.O_WRONLY|os.O_CREATE|os.O_TRUNC","os.O_RDWR|os.O_CREATE|os.O_TRUNC"),(F,"	return os.OpenFile(full, os.O_RDONLY, 0644)","	return w, nil")])

P='multipart.go'; V='server.go'; H='session_handler.go'; S='session.go'; M='protocol/message.go'
MERGE=(P,'''		if seq < 1 || seq > m.Sum {
			return nil
		}
		f, err := os.OpenFile(path, os.O_RDONLY, 0644)
		if err != nil {
			return err
		}
		inputs = append(inputs, partFile{f: f, seq: seq, path: path})
		return nil
''','''		if seq >= 1 && seq <= m.Sum {
			f, err := os.Open(path)
			if err != nil {
				return err
			}
			inputs = append(inputs, partFile{f: f, seq: seq, path: path})
		}
		return nil
''')
WALK=(P,'''		slice := strings.Split(strings.Split(info.Name(), ".")[0], "-")
		if len(slice) != 3 || slice[0] != id {
			return nil
		}

		tag, _ := strconv.Atoi(slice[1])
		if uint32(tag) != m.Tag {
			return nil
		}

		seq, _ := strconv.Atoi(slice[2])
		return walkFn(path, uint16(seq))
''','''		slice := strings.Split(strings.Split(info.Name(), ".")[0], "-")
		if len(slice) == 3 && slice[0] == id {
			tag, _ := strconv.Atoi(slice[1])
			if uint32(tag) == m.Tag {
				seq, _ := strconv.Atoi(slice[2])
				return walkFn(path, uint16(seq))
			}
		}
		return nil
''')
quiet("mp-nested","C18",[MERGE])
quiet("mp-nested-walk","C18",[WALK])
quiet("mp-nested-both","C18",[MERGE,WALK])
quiet("mp-nested-trim","C18",[MERGE,(P,'''		if filepath.Ext(info.Name()) != ".part" {
			return nil
		}

		slice := strings.Split(strings.Split(info.Name(), ".")[0], "-")
''','''		name := info.Name()
		if !strings.HasSuffix(name, ".part") {
			return nil
		}

		slice := strings.Split(strings.TrimSuffix(name, ".part"), "-")
''')])
quiet("mp-tagtext","C18",[(P,'''		tag, _ := strconv.Atoi(slice[1])
		if uint32(tag) != m.Tag {
			return nil
		}
''','''		tag, err := strconv.ParseUint(slice[1], 10, 32)
		if err != nil || uint32(tag) != m.Tag {
			return nil
		}
''')])
quiet("mp-path-helper","C18",[(P,'''	sep := filepath.Separator
	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
''','''	full := m.filePath(fmt.Sprintf("%d-%d.full", m.MsgID, m.Tag))
'''),(P,'''	sep := filepath.Separator
	name := fmt.Sprintf("%s%c%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, seq)
	return''','''	name := m.filePath(fmt.Sprintf("%d-%d-%d.part", m.MsgID, m.Tag, seq))
	return'''),(P,'''// 写入分包文件
func''','''func (m MultipartFile) filePath(name string) string {
	return filepath.Join(m.rootDir(), name)
}

// 写入分包文件
func'''),(P,'''	sep := filepath.Separator
	dir := fmt.Sprintf("%s%cgo808%c%d", os.TempDir(), sep, sep, m.IccID)
	return dir
''','''	return filepath.Join(os.TempDir(), "go808", strconv.FormatUint(m.IccID, 10))
''')])
quiet("mp-order","C18",[(P,'''	sort.Sort(inputs)
	for _, part''','''	for _, part'''),(P,'''	sep := filepath.Separator
	full := fmt.Sprintf(''','''	sort.Sort(inputs)
	sep := filepath.Separator
	full := fmt.Sprintf(''')])

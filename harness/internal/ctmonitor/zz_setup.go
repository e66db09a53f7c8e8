package ctmonitor

// ZZMonitor serves what is stored in dir.
func ZZMonitor(dir string, mask int) func(endpoint string, kv ...string) (int, []byte) {
	w := &zzWorld{dir: dir, mask: mask}
	w.start(dir, "")
	return func(endpoint string, kv ...string) (int, []byte) {
		r := w.get(endpoint, kv...)
		return r.code, r.body
	}
}

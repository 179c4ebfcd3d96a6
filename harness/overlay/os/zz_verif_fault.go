package os

import (
	"sync"
	"syscall"
)

// Laid over package os by the check of C17. With ZKV_FAULT=k:mode the k-th write to a file fails:
//
//	once    nothing is written, later writes succeed
//	sticky  nothing is written by it and by later writes to any file
//	short   half of it is written, later writes succeed
//	kill    half of it is written and the process is killed
//
// With ZKV_WRITES=name every write is recorded there as a line "name size". With ZKV_DATA=name (check of C15)
// also the bytes are, behind such a line. With ZKV_ENV=name (check of C27) the names of the environment variables
// that are asked for are recorded.

var verif struct {
	sync.Once
	sync.Mutex
	at, n  int
	mode   string
	writes int
	data   bool
	skip   string
}

func verifStart() {
	verif.writes = -1
	verif.skip, _ = syscall.Getenv("ZKV_LOG")
	if s, ok := syscall.Getenv("ZKV_FAULT"); ok {
		i := 0
		for ; i < len(s) && s[i] != ':'; i++ {
			verif.at = verif.at*10 + int(s[i]-'0')
		}
		verif.mode = s[i+1:]
	}
	s, ok := syscall.Getenv("ZKV_WRITES")
	if !ok {
		s, ok = syscall.Getenv("ZKV_DATA")
		verif.data = ok
	}
	if ok {
		verif.writes, _ = syscall.Open(s, syscall.O_CREAT|syscall.O_WRONLY|syscall.O_APPEND|syscall.O_CLOEXEC, 0600)
	}
}

func verifDecimal(n int) string {
	s := ""
	for ; n > 9; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return string(rune('0'+n)) + s
}

func verifWrite(f *File, b []byte) (n int, err error, done bool) {
	verif.Do(verifStart)
	if verif.at == 0 && verif.writes < 0 || f.pfd.Sysfd <= 2 || f.name == verif.skip || len(b) == 0 {
		return 0, nil, false
	}
	verif.Lock()
	defer verif.Unlock()
	verif.n++
	if verif.writes >= 0 {
		syscall.Write(verif.writes, []byte(f.name+" "+verifDecimal(len(b))+"\n"))
		if verif.data {
			syscall.Write(verif.writes, b)
		}
	}
	if verif.at == 0 || verif.n != verif.at && (verif.n < verif.at || verif.mode != "sticky") {
		return 0, nil, false
	}
	if (verif.mode == "short" || verif.mode == "kill") && len(b) > 1 {
		n, err = f.pfd.Write(b[:len(b)/2])
		if err != nil {
			return n, err, true
		}
	}
	if verif.mode == "kill" {
		syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
		select {}
	}
	return n, syscall.ENOSPC, true
}

func verifEnv(key string) {
	if name, ok := syscall.Getenv("ZKV_ENV"); ok {
		if fd, err := syscall.Open(name, syscall.O_CREAT|syscall.O_WRONLY|syscall.O_APPEND|syscall.O_CLOEXEC, 0600); err == nil {
			syscall.Write(fd, []byte(key+"\n"))
			syscall.Close(fd)
		}
	}
}

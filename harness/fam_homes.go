package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"syscall"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

func init() { families["homes"] = famHomes }

// homesCase: what the user database and the environment say of the user and
// of the home directory differ. Whichever the command goes by, it is the same
// for every operation.
type homesCase struct {
	UID     int    `json:"uid"`     // in the user database, perhaps
	User    string `json:"user"`    // $USER
	Logname string `json:"logname"` // $LOGNAME
	Keys    string `json:"keys"`    // whose key pair is in $HOME; "": it is generated
	Unset   bool   `json:"unset"`   // there is no $HOME
}

func famHomes(c *Ctx) {
	var k homesCase
	c.Parse(&k)
	dir := c.Dir
	os.MkdirAll(filepath.Join(dir, ".signify"), 0700)
	writeFile(filepath.Join(dir, "m"), makeMessage(100, "", c.Rng), 0644)
	made := func(err error) {
		if err != nil {
			fatal("homes: %v", err)
		}
	}
	env := []string{"PATH=/usr/bin:/bin", "TMPDIR=" + dir, "USER=" + k.User, "LOGNAME=" + k.Logname}
	if !k.Unset {
		env = append(env, "HOME="+dir)
	}
	oks := []bool{}
	run := func(args ...string) {
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil {
				os.Lchown(p, k.UID, k.UID)
			}
			return nil
		})
		cmd := exec.Command(*flagCLI, args...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(k.UID), Gid: uint32(k.UID), NoSetGroups: true}}
		oks = append(oks, runCmd(cmd, dir, env, nil).code == 0)
	}
	if k.Keys != "" {
		base := filepath.Join(dir, ".signify", k.Keys)
		made(signify.GenerateKey(base, nil, nil))
		made(signify.Sign(base+".sec", filepath.Join(dir, "m"), filepath.Join(dir, "x")))
		made(crypto.Seal(base+".pub", filepath.Join(dir, "m"), filepath.Join(dir, "c")))
		run("-V", "-m", "m", "-x", "x")
		run("-D", "-c", "c", "-m", "o")
		run("-S", "-m", "m", "-x", "x2")
		run("-E", "-m", "m", "-c", "c2")
	} else {
		run("-G", "-n")
		run("-S", "-m", "m")
		run("-V", "-m", "m")
		run("-E", "-m", "m")
		run("-D", "-c", "m.enc", "-m", "o")
	}
	c.Emit("homes", Ev{"oks": oks})
}

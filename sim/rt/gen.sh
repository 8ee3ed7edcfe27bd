#!/bin/bash
# Regenerates the re-export files of the stand-in packages.
cd "$(dirname "$0")/.." || exit 1
R="go run ./cmd/reexport"
$R sync simsync rt/simsync/reexport.go Mutex,RWMutex,Once,OnceFunc,Pool,WaitGroup,Cond,NewCond,Locker,Map
rm -f rt/simsync/reexport.go
$R time simtime rt/simtime/reexport.go Now,Since,Until,Sleep,After,Timer,NewTimer,AfterFunc,Ticker,NewTicker,Tick
$R math/rand simrand rt/simrand/reexport.go Seed,Float64,Float32,ExpFloat64,NormFloat64,Int,Int31,Int31n,Int63,Int63n,Intn,Perm,Shuffle,Uint32,Uint64,Read
$R math/rand/v2 simrandv2 rt/simrandv2/reexport.go Float64,Float32,ExpFloat64,NormFloat64,Int,Int32,Int32N,Int64,Int64N,IntN,Perm,Shuffle,Uint,Uint32,Uint32N,Uint64,Uint64N,UintN
$R os simos rt/simos/reexport.go File,Stdin,Stdout,Stderr,Open,OpenFile,Create,CreateTemp,NewFile,ReadFile,Stat,Lstat,WriteFile,Remove,RemoveAll,Rename,Truncate,Mkdir,MkdirAll,MkdirTemp,Link,Symlink,Chmod,Chown,Lchown,Chtimes,Chdir,CopyFS,Exit,Pipe,ReadDir,DirFS,Root,OpenRoot,OpenInRoot,StartProcess,Process,ProcAttr,ProcessState,FindProcess,Setenv,Unsetenv,Clearenv
$R io/ioutil simioutil rt/simioutil/reexport.go ReadFile,WriteFile,TempDir,TempFile,ReadDir
gofmt -l -w rt cmd

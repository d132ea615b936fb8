package main

// Not part of the program: dropped into a scratch copy of it, this file
// and called at the start of main exercises constructs a refactoring may bring.
// See DESIGN.md, "self-tests".

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type tryq[T any] struct {
	ch chan T
	wg sync.WaitGroup
	mu sync.RWMutex
	o  sync.Once
	n  atomic.Int64
}

func (q *tryq[T]) run(f func(T)) {
	q.wg.Add(1)
	go func() {
		defer q.wg.Done()
		for v := range q.ch {
			f(v)
			q.n.Add(1)
		}
	}()
}

func sendAll[T any](c chan<- T, n int, v T) {
	defer close(c)
	for i := 0; i < n; i++ {
		c <- v
	}
}

func tryConstructs() {
	q := &tryq[int]{ch: make(chan int, 3)}
	tot := 0
	q.run(func(i int) { q.mu.Lock(); tot += i; q.mu.Unlock() })
	q.run(func(i int) { q.mu.Lock(); tot += i; q.mu.Unlock() })
	for i := 0; i < 5; i++ {
		q.ch <- i
	}
	close(q.ch)
	q.wg.Wait()
	if tot != 10 {
		panic("tot")
	}
	q.o.Do(func() {})
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	done := make(chan struct{})
	go func() { <-ctx.Done(); close(done) }()
	cancel()
outer:
	for {
		select {
		case <-done:
			break outer
		case <-time.After(time.Millisecond):
		default:
			runtime.Gosched()
		}
	}
	ctx2, c2 := context.WithTimeout(context.Background(), time.Second)
	<-ctx2.Done()
	c2()
	var flag atomic.Bool
	go func() { flag.Store(true) }()
	for !flag.Load() {
	}
	f, err := os.CreateTemp(".", "zzz*")
	if err == nil {
		f.WriteString("abc")
		f.ReadFrom(strings.NewReader("qq"))
		f.Seek(0, 0)
		b := make([]byte, 10)
		n, err := f.Read(b)
		if err == nil && string(b[:n]) != "abcqq" {
			panic("file")
		}
		f.Close()
		os.Remove(f.Name())
	}
	c := sync.NewCond(&sync.Mutex{})
	rdy := false
	go func() { c.L.Lock(); rdy = true; c.L.Unlock(); c.Broadcast() }()
	c.L.Lock()
	for !rdy {
		c.Wait()
	}
	c.L.Unlock()
	func() {
		defer func() { _ = fmt.Sprint(recover()) }()
		panic("x")
	}()
	t := time.NewTicker(time.Millisecond)
	<-t.C
	t.Stop()
	var tm sync.Map
	tm.Store(1, 2)
	a, b := make(chan int, 1), make(chan int)
	arr := []chan int{a, b}
	arr[0] <- 3
	if v, ok := <-arr[0]; !ok || v != 3 {
		panic("arr")
	}
	go func() { defer close(b); b <- 1 }()
	for range b {
	}
	e := make(chan string)
	go sendAll(e, 3, "x")
	got := ""
	for s := range e {
		got += s
	}
	if got != "xxx" {
		panic("sendAll")
	}
}

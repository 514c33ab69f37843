package main

import (
	"errors"
	"fmt"
	"io/fs"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
)

// AtomicError: a register of errors.

type regIn struct {
	set bool
	err error
}

type regOut struct{ err error }

type valErr struct{ n int }

func (e valErr) Error() string { return fmt.Sprint("value error ", e.n) }

type nilErr struct{ _ int }

func (e *nilErr) Error() string { return fmt.Sprint("nil error ", e == nil) }

func init() {
	mk := func(r *R, i int, last error) error {
		switch r.Choose(14) {
		case 1:
			return valErr{i}
		case 2:
			return &valErr{i}
		case 3:
			return fmt.Errorf("wrapped %d: %w", i, errors.New("inner"))
		case 4:
			return sliceErr{i}
		case 5:
			return &fs.PathError{Op: fmt.Sprint(i), Path: "p", Err: fs.ErrNotExist}
		case 6:
			return errors.Join(valErr{i}, &valErr{i})
		case 7: // another error with the same text as others
			return errors.New("same text")
		case 8: // equal to other errors that are not the same
			return &valErr{0}
		case 9: // a nil pointer is an error all the same
			return (*nilErr)(nil)
		case 10:
			return valErr{}
		case 11: // related to an error set elsewhere
			if last != nil {
				return fmt.Errorf("wrapped %d: %w", i, last)
			}
		case 12:
			if e := errors.Unwrap(last); e != nil {
				return e
			}
		case 13: // set again
			if last != nil {
				return last
			}
		}
		return errors.New(fmt.Sprint("error ", i))
	}
	register("E01", &Scenario{Name: "register", Race: true, MaxSteps: 20000, Run: func(r *R) {
		ae := &gconstraints.AtomicError{}
		log := NewLog[*Op](64)
		exec := func(c int, in regIn) {
			op := &Op{Client: c, Call: stamp(), Ret: pending, In: in}
			log.Add(op)
			r.Yield()
			var out regOut
			if in.set {
				ae.Set(in.err)
			} else {
				out.err = ae.Load()
			}
			r.Yield()
			finishOp(op, out)
		}
		id := 0
		var last error
		clients, per := r.Range(2, 4), r.Range(1, 4)
		for c := 1; c <= clients; c++ {
			c := c
			var plan []regIn
			for i := 0; i < per; i++ {
				id++
				switch r.Pick(5, 4, 1) {
				case 0:
					plan = append(plan, regIn{})
				case 1:
					last = mk(r, id, last)
					plan = append(plan, regIn{true, last})
				case 2:
					plan = append(plan, regIn{true, nil})
				}
			}
			r.Go(fmt.Sprintf("client %d", c), 1, func() {
				for _, in := range plan {
					exec(c, in)
				}
			})
		}
		if !r.Join() {
			return
		}
		exec(0, regIn{})
		ops := log.All()
		for _, o := range ops {
			in := o.In.(regIn)
			if in.set {
				o.Desc = fmt.Sprintf("Set(%T %v)", in.err, in.err)
			} else {
				o.Desc = fmt.Sprintf("Load() = %T %v", o.Out.(regOut).err, o.Out.(regOut).err)
			}
		}
		if overlaps(ops) {
			r.NonTriv()
		}
		r.Logf("%s", describeOps(ops))
		type st struct {
			err error
			key string
		}
		ok, _ := linearizable(ops, Model{
			Init: st{},
			Key:  func(s any) string { return s.(st).key },
			Step: func(s any, op *Op) []any {
				in := op.In.(regIn)
				cur := s.(st)
				if in.set {
					if in.err == nil {
						return []any{cur}
					}
					return []any{st{in.err, fmt.Sprint("set by call ", op.Call)}}
				}
				if !sameErr(op.Out.(regOut).err, cur.err) {
					return nil
				}
				return []any{cur}
			},
		})
		if !ok {
			r.Fail("linearizability", "no one-at-a-time order explains the results of Set and Load")
		}
	}})
}

//go:norace
func finishOp(o *Op, out any) {
	o.Out = out
	o.Ret = stamp()
}

package main

// Preludes per float mode and the solver portfolio.

import (
	"context"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var nanv = math.NaN()
var posInf, negInf = math.Inf(1), math.Inf(-1)

const rinf = "9218868437227405312"

type axGroup struct {
	need []string // symbols that must occur
	text string
}

const commonPre = `
(define-fun go_div ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))
; the first two cases are instances of the third, easier to see
(define-fun go_mod ((a Int) (b Int)) Int (ite (and (<= 0 a) (< a b)) a (ite (and (< 0 a) (= a b)) 0 (- a (* b (go_div a b))))))
(declare-fun ix (Int Int) Int)
(assert (forall ((o Int) (i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i)))))
; the offset of a slice of a slice: a function of its own, so that an element index that happens to be 0 does not feed this rule
(declare-fun ixs (Int Int) Int)
(assert (forall ((o Int) (i Int)) (! (= (ixs o i) (+ o i)) :pattern ((ixs o i)))))
(assert (forall ((o Int) (a Int) (i Int)) (! (= (ix (ixs o a) i) (ix o (+ a i))) :pattern ((ix (ixs o a) i)))))
`

var mathUn = []string{"fsqrt", "fsin", "fcos", "ftan", "facos", "fasin", "fatan", "ffloor", "fceil", "ftrunc", "flog2", "flog", "fexp"}
var mathBin = []string{"fatan2", "fpow", "fmod"}

const ieeePre = `
(declare-sort F64 0)
(declare-fun rk (F64) Int)
(declare-fun of_rk (Int) F64)
(declare-fun isnan (F64) Bool)
(declare-const c_nan F64)
(assert (isnan c_nan))
(assert (forall ((x F64)) (! (=> (isnan x) (= x c_nan)) :pattern ((isnan x)))))
(assert (forall ((x F64)) (! (and (<= (- RINF) (rk x)) (<= (rk x) RINF)) :pattern ((rk x)))))
(assert (forall ((x F64)) (! (=> (and (not (isnan x)) (not (= (rk x) 0))) (= x (of_rk (rk x)))) :pattern ((rk x)))))
(define-fun isfin ((x F64)) Bool (and (not (isnan x)) (< (- RINF) (rk x)) (< (rk x) RINF)))
(define-fun flt ((x F64) (y F64)) Bool (and (not (isnan x)) (not (isnan y)) (< (rk x) (rk y))))
(define-fun fle ((x F64) (y F64)) Bool (and (not (isnan x)) (not (isnan y)) (<= (rk x) (rk y))))
(define-fun feq ((x F64) (y F64)) Bool (and (not (isnan x)) (not (isnan y)) (= (rk x) (rk y))))
(declare-fun fadd (F64 F64) F64)
(declare-fun fsub (F64 F64) F64)
(declare-fun fmul (F64 F64) F64)
(declare-fun fdiv (F64 F64) F64)
(declare-fun fneg (F64) F64)
(declare-fun fabs (F64) F64)
(declare-fun fmin (F64 F64) F64)
(declare-fun fmax (F64 F64) F64)
(declare-fun i2f (Int) F64)
(declare-fun f2i (F64) Int)
`

var ieeeAx = []axGroup{
	{[]string{"(fabs "}, `(assert (forall ((x F64)) (! (and (= (isnan (fabs x)) (isnan x)) (=> (not (isnan x)) (= (rk (fabs x)) (ite (>= (rk x) 0) (rk x) (- (rk x)))))) :pattern ((fabs x)))))`},
	{[]string{"(fneg "}, `(assert (forall ((x F64)) (! (and (= (isnan (fneg x)) (isnan x)) (= (fneg (fneg x)) x) (=> (not (isnan x)) (= (rk (fneg x)) (- (rk x))))) :pattern ((fneg x)))))`},
	{[]string{"(fmin "}, `(assert (forall ((x F64) (y F64)) (! (and
 (= (isnan (fmin x y)) (or (and (isnan x) (or (isnan y) (not (= (rk y) (- RINF))))) (and (isnan y) (or (isnan x) (not (= (rk x) (- RINF)))))))
 (=> (and (not (isnan x)) (not (isnan y))) (and (= (rk (fmin x y)) (ite (<= (rk x) (rk y)) (rk x) (rk y))) (or (= (fmin x y) x) (= (fmin x y) y))))) :pattern ((fmin x y)))))`},
	{[]string{"(fmax "}, `(assert (forall ((x F64) (y F64)) (! (and
 (= (isnan (fmax x y)) (or (and (isnan x) (or (isnan y) (not (= (rk y) RINF)))) (and (isnan y) (or (isnan x) (not (= (rk x) RINF))))))
 (=> (and (not (isnan x)) (not (isnan y))) (and (= (rk (fmax x y)) (ite (>= (rk x) (rk y)) (rk x) (rk y))) (or (= (fmax x y) x) (= (fmax x y) y))))) :pattern ((fmax x y)))))`},
	{[]string{"(fsub "}, `(assert (forall ((x F64) (y F64)) (! (and
 (= (isnan (fsub x y)) (or (isnan x) (isnan y) (and (= (rk x) (rk y)) (or (= (rk x) RINF) (= (rk x) (- RINF))))))
 (=> (not (isnan (fsub x y))) (and (= (< (rk x) (rk y)) (< (rk (fsub x y)) 0)) (= (= (rk x) (rk y)) (= (rk (fsub x y)) 0)) (= (rk (fsub y x)) (- (rk (fsub x y))))))) :pattern ((fsub x y)))))
(assert (forall ((x F64) (y F64)) (! (= (isnan (fsub y x)) (isnan (fsub x y))) :pattern ((fsub x y)))))`},
	{[]string{"(fsub ", "(fabs "}, `(assert (forall ((x F64) (y F64)) (! (= (fabs (fsub x y)) (fabs (fsub y x))) :pattern ((fabs (fsub x y))))))`},
	{[]string{"(fmul "}, `(assert (forall ((x F64) (y F64)) (! (and
 (= (fmul x y) (fmul y x))
 (= (isnan (fmul x y)) (or (isnan x) (isnan y) (and (= (rk x) 0) (or (= (rk y) RINF) (= (rk y) (- RINF)))) (and (= (rk y) 0) (or (= (rk x) RINF) (= (rk x) (- RINF))))))
 (=> (not (isnan (fmul x y))) (and (=> (and (>= (rk x) 0) (>= (rk y) 0)) (>= (rk (fmul x y)) 0)) (=> (and (<= (rk x) 0) (<= (rk y) 0)) (>= (rk (fmul x y)) 0))
  (=> (and (>= (rk x) 0) (<= (rk y) 0)) (<= (rk (fmul x y)) 0)) (=> (and (<= (rk x) 0) (>= (rk y) 0)) (<= (rk (fmul x y)) 0))
  (=> (or (= (rk x) 0) (= (rk y) 0)) (= (rk (fmul x y)) 0))))) :pattern ((fmul x y)))))
(declare-fun fsquare_abs (F64) F64)
(assert (forall ((x F64)) (! (= (fmul x x) (fsquare_abs (fabs x))) :pattern ((fmul x x)))))`},
	{[]string{"(fmul ", "(fsub "}, `(assert (forall ((x F64) (y F64)) (! (= (fabs (fsub x y)) (fabs (fsub y x))) :pattern ((fmul (fsub x y) (fsub x y))))))`},
	{[]string{"(fadd "}, `(assert (forall ((x F64) (y F64)) (! (and
 (= (fadd x y) (fadd y x))
 (= (isnan (fadd x y)) (or (isnan x) (isnan y) (and (= (rk x) RINF) (= (rk y) (- RINF))) (and (= (rk y) RINF) (= (rk x) (- RINF)))))
 (=> (not (isnan (fadd x y))) (and (=> (>= (rk y) 0) (>= (rk (fadd x y)) (rk x))) (=> (<= (rk y) 0) (<= (rk (fadd x y)) (rk x))) (=> (>= (rk x) 0) (>= (rk (fadd x y)) (rk y))) (=> (<= (rk x) 0) (<= (rk (fadd x y)) (rk y)))
  (=> (= (rk y) 0) (= (rk (fadd x y)) (rk x)))))) :pattern ((fadd x y)))))`},
	{[]string{"(fdiv "}, `(assert (forall ((x F64) (y F64)) (! (and
 (= (isnan (fdiv x y)) (or (isnan x) (isnan y) (and (= (rk x) 0) (= (rk y) 0)) (and (or (= (rk x) RINF) (= (rk x) (- RINF))) (or (= (rk y) RINF) (= (rk y) (- RINF))))))
 (=> (and (not (isnan (fdiv x y))) (not (= (rk y) 0))) (and (=> (and (>= (rk x) 0) (> (rk y) 0)) (>= (rk (fdiv x y)) 0)) (=> (and (<= (rk x) 0) (< (rk y) 0)) (>= (rk (fdiv x y)) 0))
  (=> (and (>= (rk x) 0) (< (rk y) 0)) (<= (rk (fdiv x y)) 0)) (=> (and (<= (rk x) 0) (> (rk y) 0)) (<= (rk (fdiv x y)) 0))))) :pattern ((fdiv x y)))))`},
	{[]string{"(fsqrt "}, `(assert (forall ((x F64)) (! (and
 (= (isnan (fsqrt x)) (or (isnan x) (< (rk x) 0)))
 (=> (not (isnan (fsqrt x))) (and (>= (rk (fsqrt x)) 0) (= (= (rk (fsqrt x)) 0) (= (rk x) 0))))) :pattern ((fsqrt x)))))`},
	{[]string{"(fatan2 "}, `(assert (forall ((y F64) (x F64)) (! (and (= (isnan (fatan2 y x)) (or (isnan x) (isnan y))) (=> (and (>= (rk y) 0) (>= (rk x) 0) (not (isnan (fatan2 y x)))) (>= (rk (fatan2 y x)) 0))) :pattern ((fatan2 y x)))))`},
	{[]string{"(i2f "}, `(assert (forall ((n Int)) (! (and (not (isnan (i2f n))) (isfin (i2f n)) (= (>= (rk (i2f n)) 0) (>= n 0)) (= (= (rk (i2f n)) 0) (= n 0))) :pattern ((i2f n)))))`},
}

const realPre = `
(define-sort F64 () Real)
(declare-const c_nan Real)
(declare-const c_inf Real)
(define-fun isnan ((x F64)) Bool false)
(define-fun isfin ((x F64)) Bool true)
(define-fun flt ((x F64) (y F64)) Bool (< x y))
(define-fun fle ((x F64) (y F64)) Bool (<= x y))
(define-fun feq ((x F64) (y F64)) Bool (= x y))
(define-fun fadd ((x F64) (y F64)) F64 (+ x y))
(define-fun fsub ((x F64) (y F64)) F64 (- x y))
(define-fun fmul ((x F64) (y F64)) F64 (* x y))
(define-fun fdiv ((x F64) (y F64)) F64 (/ x y))
(define-fun fneg ((x F64)) F64 (- x))
(define-fun fabs ((x F64)) F64 (ite (>= x 0.0) x (- x)))
(define-fun fmin ((x F64) (y F64)) F64 (ite (<= x y) x y))
(define-fun fmax ((x F64) (y F64)) F64 (ite (>= x y) x y))
(define-fun i2f ((n Int)) F64 (to_real n))
(define-fun f2i ((x F64)) Int (ite (>= x 0.0) (to_int x) (- (to_int (- x)))))
`

var realAx = []axGroup{
	{[]string{"(fatan2 "}, `(assert (forall ((y F64) (x F64)) (! (=> (>= y 0.0) (>= (fatan2 y x) 0.0)) :pattern ((fatan2 y x)))))`},
	{[]string{"(fsqrt "}, `(assert (forall ((x Real)) (! (=> (>= x 0.0) (and (>= (fsqrt x) 0.0) (= (* (fsqrt x) (fsqrt x)) x))) :pattern ((fsqrt x)))))`},
	{[]string{"(fsin ", "(fcos "}, `(assert (forall ((x Real)) (! (= (+ (* (fsin x) (fsin x)) (* (fcos x) (fcos x))) 1.0) :pattern ((fsin x)) :pattern ((fcos x)))))`},
}

const bitsPre = `
(define-sort F64 () (_ FloatingPoint 11 53))
(define-fun c_nan () F64 (_ NaN 11 53))
(define-fun isnan ((x F64)) Bool (fp.isNaN x))
(define-fun isfin ((x F64)) Bool (not (or (fp.isNaN x) (fp.isInfinite x))))
(define-fun flt ((x F64) (y F64)) Bool (fp.lt x y))
(define-fun fle ((x F64) (y F64)) Bool (fp.leq x y))
(define-fun feq ((x F64) (y F64)) Bool (fp.eq x y))
(define-fun fadd ((x F64) (y F64)) F64 (fp.add RNE x y))
(define-fun fsub ((x F64) (y F64)) F64 (fp.sub RNE x y))
(define-fun fmul ((x F64) (y F64)) F64 (fp.mul RNE x y))
(define-fun fdiv ((x F64) (y F64)) F64 (fp.div RNE x y))
(define-fun fneg ((x F64)) F64 (fp.neg x))
(define-fun fabs ((x F64)) F64 (fp.abs x))
(define-fun fmin ((x F64) (y F64)) F64 (ite (or (fp.isNaN x) (fp.isNaN y)) (ite (or (= x (_ -oo 11 53)) (= y (_ -oo 11 53))) (_ -oo 11 53) c_nan) (ite (and (fp.isZero x) (fp.isZero y)) (ite (fp.isNegative x) x y) (ite (fp.lt x y) x y))))
(define-fun fmax ((x F64) (y F64)) F64 (ite (or (fp.isNaN x) (fp.isNaN y)) (ite (or (= x (_ +oo 11 53)) (= y (_ +oo 11 53))) (_ +oo 11 53) c_nan) (ite (and (fp.isZero x) (fp.isZero y)) (ite (fp.isNegative x) y x) (ite (fp.gt x y) x y))))
(define-fun i2f ((n Int)) F64 ((_ to_fp 11 53) RNE (to_real n)))
(define-fun f2i ((x F64)) Int (ite (fp.isNegative x) (- (to_int (- (fp.to_real x)))) (to_int (fp.to_real x))))
`

func (s *Sorts) floatPrelude(body string) string {
	var b strings.Builder
	var ax []axGroup
	switch s.mode {
	case IEEE:
		b.WriteString(strings.ReplaceAll(ieeePre, "RINF", rinf))
		ax = ieeeAx
	case REAL:
		b.WriteString(realPre)
		ax = realAx
	case BITS:
		b.WriteString(bitsPre)
	}
	for _, f := range mathUn {
		if s.mode == BITS {
			switch f {
			case "fsqrt":
				b.WriteString("(define-fun fsqrt ((x F64)) F64 (fp.sqrt RNE x))\n")
				continue
			case "ffloor":
				b.WriteString("(define-fun ffloor ((x F64)) F64 (fp.roundToIntegral RTN x))\n")
				continue
			case "fceil":
				b.WriteString("(define-fun fceil ((x F64)) F64 (fp.roundToIntegral RTP x))\n")
				continue
			case "ftrunc":
				b.WriteString("(define-fun ftrunc ((x F64)) F64 (fp.roundToIntegral RTZ x))\n")
				continue
			}
		}
		if s.mode == REAL {
			switch f {
			case "ffloor":
				b.WriteString("(define-fun ffloor ((x F64)) F64 (to_real (to_int x)))\n")
				continue
			case "fceil":
				b.WriteString("(define-fun fceil ((x F64)) F64 (- (to_real (to_int (- x)))))\n")
				continue
			case "ftrunc":
				b.WriteString("(define-fun ftrunc ((x F64)) F64 (to_real (f2i x)))\n")
				continue
			}
		}
		fmt.Fprintf(&b, "(declare-fun %s (F64) F64)\n", f)
	}
	for _, f := range mathBin {
		fmt.Fprintf(&b, "(declare-fun %s (F64 F64) F64)\n", f)
	}
	b.WriteString("(declare-fun fmod_ (F64 F64) F64)\n")
	for i := 0; i < 3; i++ { // axioms may introduce symbols used by other groups
		for k := range ax {
			if ax[k].need == nil {
				continue
			}
			ok := true
			for _, n := range ax[k].need {
				if !strings.Contains(body, n) {
					ok = false
				}
			}
			if ok {
				ax2 := strings.ReplaceAll(ax[k].text, "RINF", rinf)
				if !strings.Contains(b.String(), ax2) {
					b.WriteString(ax2 + "\n")
					body += ax2
				}
			}
		}
	}
	if s.mode == IEEE {
		for _, n := range sortedKeys(s.fconsts) {
			fmt.Fprintf(&b, "(declare-const %s F64)\n(assert (and (not (isnan %s)) (= (rk %s) %s)))\n", n, n, n, rank(s.fconsts[n]))
		}
		if strings.Contains(body, "(i2f ") {
			for _, n := range sortedKeys(s.fconsts) {
				if v := math.Float64frombits(s.fconsts[n]); v == math.Trunc(v) && math.Abs(v) < 1<<50 && !(v == 0 && math.Signbit(v)) {
					fmt.Fprintf(&b, "(assert (= (i2f %s) %s))\n", r2s(int64(v)), n)
				}
			}
		}
		_, z := s.fconsts["fc_0000000000000000"]
		_, mz := s.fconsts["fc_8000000000000000"]
		if z && mz {
			b.WriteString("(assert (not (= fc_0000000000000000 fc_8000000000000000)))\n")
		}
	}
	return b.String()
}

// ---------- solving ----------

type solverCfg struct {
	name string
	argv []string
	pre  string
}

func solvers(mode Mode) []solverCfg {
	z := func(bin, pre string) solverCfg {
		return solverCfg{bin, []string{bin, "-smt2", "-memory:6000"}, pre}
	}
	e := "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"
	switch mode {
	case REAL:
		return []solverCfg{
			z("z3-new", e),
			{"z3-new/auto", []string{"z3-new", "-smt2", "-memory:6000"}, ""},
			{"cvc5", []string{"cvc5", "--lang=smt2", "--nl-ext-tplanes"}, ""},
			z("z3", e),
		}
	case BITS:
		return []solverCfg{z("z3-new", ""), {"cvc5", []string{"cvc5", "--lang=smt2"}, ""}, z("z3", "")}
	}
	return []solverCfg{
		z("z3-new", e),
		{"z3-new/arith2", []string{"z3-new", "-smt2", "-memory:6000"}, e + "(set-option :smt.arith.solver 2)\n"},
		{"cvc5", []string{"cvc5", "--lang=smt2"}, ""},
		z("z3", e),
		{"z3-new/auto", []string{"z3-new", "-smt2", "-memory:6000"}, ""},
	}
}

type SolveRes struct {
	Status string // unsat, sat, unknown
	Solver string
	Time   float64
	Out    string
}

var solverNanos int64
var solverSem = make(chan struct{}, 8)

// solveDeadline bounds the whole solving phase of a check
var solveDeadline time.Time

func runSolver(parent context.Context, cfg solverCfg, file string, tmo time.Duration) (string, float64, string) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if parent.Err() != nil {
		return "unknown", 0, "cancelled"
	}
	if !solveDeadline.IsZero() {
		left := time.Until(solveDeadline)
		if left < time.Second {
			return "unknown", 0, "time budget of the check used up"
		}
		if left < tmo {
			tmo = left
		}
	}
	ctx, cancel := context.WithTimeout(parent, tmo+500*time.Millisecond)
	defer cancel()
	args := append([]string{}, cfg.argv[1:]...)
	if strings.HasPrefix(cfg.argv[0], "z3") {
		args = append(args, fmt.Sprintf("-t:%d", tmo.Milliseconds()))
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", tmo.Milliseconds()))
	}
	args = append(args, file)
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, cfg.argv[0], args...)
	out, _ := cmd.Output()
	d := time.Since(t0)
	atomic.AddInt64(&solverNanos, int64(d))
	s := strings.TrimSpace(string(out))
	st := "unknown"
	first := strings.SplitN(s, "\n", 2)[0]
	switch first {
	case "unsat", "sat":
		st = first
	}
	if strings.Contains(s, "(error") && st != "unsat" {
		st = "error"
	}
	return st, d.Seconds(), s
}

var qcount int64
var workDir string

// solve runs the portfolio in stages: a short try per solver, then longer ones.
func solve(mode Mode, text string, quick, total time.Duration) SolveRes {
	n := atomic.AddInt64(&qcount, 1)
	var files []string
	defer func() {
		for _, f := range files {
			os.Remove(f)
		}
	}()
	cfgs := solvers(mode)
	var last SolveRes
	last.Status = "unknown"
	var spent float64
	for stage := 0; stage < 2; stage++ {
		t := quick
		if stage == 0 && quick == 0 || stage == 1 && total == 0 {
			continue
		}
		if stage == 1 {
			t = total
		}
		if stage == 1 {
			// concurrently
			var mu sync.Mutex
			var wg sync.WaitGroup
			var best SolveRes
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			for _, c := range cfgs {
				f := filepath.Join(workDir, fmt.Sprintf("q%d_%s.smt2", n, san(c.name)))
				os.WriteFile(f, []byte(c.pre+text), 0644)
				files = append(files, f)
				wg.Add(1)
				go func(c solverCfg, f string) {
					defer wg.Done()
					mu.Lock()
					done := best.Status == "unsat"
					mu.Unlock()
					if done {
						return
					}
					st, d, out := runSolver(ctx, c, f, t)
					mu.Lock()
					defer mu.Unlock()
					spent += d
					if st == "unsat" && best.Status != "unsat" {
						best = SolveRes{st, c.name, d, out}
						cancel()
					} else if st == "sat" && best.Status == "" {
						best = SolveRes{st, c.name, d, out}
					} else if st == "error" && best.Status == "" {
						last.Out = c.name + ": " + out
					}
				}(c, f)
			}
			wg.Wait()
			if best.Status != "" {
				return best
			}
			break
		}
		for i, c := range cfgs {
			if i > 2 && mode != REAL {
				break
			}
			f := filepath.Join(workDir, fmt.Sprintf("q%d_%s.smt2", n, san(c.name)))
			os.WriteFile(f, []byte(c.pre+text), 0644)
			files = append(files, f)
			st, d, out := runSolver(context.Background(), c, f, t)
			spent += d
			if st == "unsat" {
				return SolveRes{st, c.name, d, out}
			}
			if st == "error" {
				last.Out = c.name + ": " + out
			}
			if st == "sat" && last.Status != "sat" {
				last = SolveRes{st, c.name, d, out}
			}
		}
		if last.Status == "sat" {
			return last
		}
	}
	last.Time = spent
	return last
}

func r2s(n int64) string {
	if n < 0 {
		return fmt.Sprintf("(- %d)", -n)
	}
	return fmt.Sprint(n)
}

// Package logging is a stand-in for github.com/amarin/logging v0.1.0, which is not
// installed in this sandbox (its go.mod and its dependencies are missing from the module cache).
// It keeps the API surface of the real module used by gomorphy. Messages are rendered (so that
// the Stringers of the arguments run, as they do under the real backend) and go to Sink when one is set.
package logging

import (
	"context"
	"fmt"
	"os"
	"sync"
)

// Level is a type for logging levels.
type Level int

// Logging levels.
const (
	LevelTrace   Level = 0
	LevelDebug   Level = 1
	LevelInfo    Level = 2
	LevelWarn    Level = 3
	LevelError   Level = 4
	LevelPanic   Level = 5
	LevelFatal   Level = 6
	DefaultLevel       = LevelInfo
)

// IsEnabledForLevel mirrors the real module.
func (l Level) IsEnabledForLevel(level Level) bool { return level >= l }

// String mirrors the real module.
func (l Level) String() string {
	switch l {
	case LevelTrace:
		return "trace"
	case LevelDebug:
		return "debug"
	case LevelInfo:
		return "info"
	case LevelWarn:
		return "warn"
	case LevelError:
		return "error"
	case LevelPanic:
		return "panic"
	case LevelFatal:
		return "fatal"
	}
	return fmt.Sprintf("level%d", int(l))
}

// Key and Keys mirror the real module.
type Key string

// String returns the key.
func (k Key) String() string { return string(k) }

// Keys is a set of key-values.
type Keys map[Key]any

// Option mirrors the real module's option type.
type Option func() error

// WithLevel sets the level of the backend.
func WithLevel(Level) Option { return func() error { return nil } }

// Init does nothing here.
func Init(_ ...Option) error { return nil }

// MustInit does nothing here.
func MustInit(_ ...Option) {}

// Logger is the interface of the real module.
type Logger interface {
	Level() Level
	IsEnabledForLevel(level Level) bool
	Trace(args ...interface{})
	Tracef(fmt string, args ...interface{})
	Debug(args ...interface{})
	Debugf(fmt string, args ...interface{})
	Info(args ...interface{})
	Infof(fmt string, args ...interface{})
	Warn(args ...interface{})
	Warnf(fmt string, args ...interface{})
	Error(args ...interface{})
	Errorf(fmt string, args ...interface{})
	Fatal(args ...interface{})
	Fatalf(fmt string, args ...interface{})
	WithKeys(fields Keys) Logger
	WithKey(key string, value any) Logger
	WithError(err error) Logger
	WithLevel(level Level) Logger
}

var (
	mu sync.Mutex
	// Sink, when set, receives every rendered message.
	Sink func(name string, level Level, msg string)
)

func init() {
	if os.Getenv("VERIF_LOG_STDERR") != "" {
		Sink = func(name string, level Level, msg string) {
			fmt.Fprintf(os.Stderr, "LOG %s %s %s\n", level, name, msg)
		}
	}
}

type logger struct {
	name  string
	level Level
}

func (l *logger) out(level Level, msg string) {
	if !l.level.IsEnabledForLevel(level) {
		return
	}
	mu.Lock()
	s := Sink
	mu.Unlock()
	if s != nil {
		s(l.name, level, msg)
	}
}

func (l *logger) Level() Level                       { return l.level }
func (l *logger) IsEnabledForLevel(level Level) bool { return l.level.IsEnabledForLevel(level) }
func (l *logger) Trace(a ...interface{})             { l.out(LevelTrace, fmt.Sprint(a...)) }
func (l *logger) Tracef(f string, a ...interface{})  { l.out(LevelTrace, fmt.Sprintf(f, a...)) }
func (l *logger) Debug(a ...interface{})             { l.out(LevelDebug, fmt.Sprint(a...)) }
func (l *logger) Debugf(f string, a ...interface{})  { l.out(LevelDebug, fmt.Sprintf(f, a...)) }
func (l *logger) Info(a ...interface{})              { l.out(LevelInfo, fmt.Sprint(a...)) }
func (l *logger) Infof(f string, a ...interface{})   { l.out(LevelInfo, fmt.Sprintf(f, a...)) }
func (l *logger) Warn(a ...interface{})              { l.out(LevelWarn, fmt.Sprint(a...)) }
func (l *logger) Warnf(f string, a ...interface{})   { l.out(LevelWarn, fmt.Sprintf(f, a...)) }
func (l *logger) Error(a ...interface{})             { l.out(LevelError, fmt.Sprint(a...)) }
func (l *logger) Errorf(f string, a ...interface{})  { l.out(LevelError, fmt.Sprintf(f, a...)) }
func (l *logger) Fatal(a ...interface{})             { l.out(LevelFatal, fmt.Sprint(a...)); os.Exit(1) }
func (l *logger) Fatalf(f string, a ...interface{}) {
	l.out(LevelFatal, fmt.Sprintf(f, a...))
	os.Exit(1)
}
func (l *logger) WithKeys(Keys) Logger         { return l }
func (l *logger) WithKey(string, any) Logger   { return l }
func (l *logger) WithError(error) Logger       { return l }
func (l *logger) WithLevel(level Level) Logger { return &logger{name: l.name, level: level} }

func lvl(levels []Level) Level {
	if len(levels) > 0 {
		return levels[0]
	}
	return LevelDebug
}

// NewLogger mirrors the real module.
func NewLogger(levels ...Level) Logger { return &logger{level: lvl(levels)} }

// NewLoggerCtx mirrors the real module.
func NewLoggerCtx(_ context.Context, levels ...Level) Logger { return NewLogger(levels...) }

// NewNamedLogger mirrors the real module.
func NewNamedLogger(name string, levels ...Level) Logger {
	return &logger{name: name, level: lvl(levels)}
}

// NewNamedLoggerCtx mirrors the real module.
func NewNamedLoggerCtx(_ context.Context, name string, levels ...Level) Logger {
	return NewNamedLogger(name, levels...)
}

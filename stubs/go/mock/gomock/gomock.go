// Stub of go.uber.org/mock/gomock (declarations only).
package gomock

import "reflect"

type TestReporter interface {
	Errorf(format string, args ...any)
	Fatalf(format string, args ...any)
}
type TestHelper interface {
	TestReporter
	Helper()
}
type Matcher interface {
	Matches(x any) bool
	String() string
}
type Call struct{ T TestHelper }

func (c *Call) AnyTimes() *Call               { panic("stub") }
func (c *Call) Times(n int) *Call             { panic("stub") }
func (c *Call) MinTimes(n int) *Call          { panic("stub") }
func (c *Call) MaxTimes(n int) *Call          { panic("stub") }
func (c *Call) Return(rets ...any) *Call      { panic("stub") }
func (c *Call) Do(f any) *Call                { panic("stub") }
func (c *Call) DoAndReturn(f any) *Call       { panic("stub") }
func (c *Call) SetArg(n int, value any) *Call { panic("stub") }
func (c *Call) After(preReq *Call) *Call      { panic("stub") }

type Controller struct{ T TestHelper }

func NewController(t TestReporter) *Controller { panic("stub") }
func (c *Controller) Call(receiver any, method string, args ...any) []any {
	panic("stub")
}
func (c *Controller) RecordCall(receiver any, method string, args ...any) *Call { panic("stub") }
func (c *Controller) RecordCallWithMethodType(receiver any, method string, methodType reflect.Type, args ...any) *Call {
	panic("stub")
}
func (c *Controller) Finish()     { panic("stub") }
func Any() Matcher                { panic("stub") }
func Eq(x any) Matcher            { panic("stub") }
func Nil() Matcher                { panic("stub") }
func Not(x any) Matcher           { panic("stub") }
func InOrder(calls ...any)        { panic("stub") }

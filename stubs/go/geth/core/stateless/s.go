package stateless

type Witness struct{ x int }

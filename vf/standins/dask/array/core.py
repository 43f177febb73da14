class Array: pass

module verif/harness

go 1.22

require github.com/kodaimura/ddlparse v0.0.0

replace github.com/kodaimura/ddlparse => /repo

package resolver

func zzFile(pkg string) *File { return &File{Package: &Package{Name: pkg}} }

func zzReported(ctx *context) int { return len(ctx.errorBuilder.errs) }

E='gen/errors.go'; G='gen/gen.go'
def ed(f,*prs):
    src=open('/repo/'+f).read(); cur=src
    for o,n in prs:
        assert cur.count(o)>=1,o; cur=cur.replace(o,n,1)
    return [(f,src,cur)]
esrc=open('/repo/'+E).read()
func='''package gen

import "github.com/webrpc/webrpc/schema"

var WebrpcErrors = builtinErrors()

const (
	badRequest = 400
	serverError = 500
)

func builtinErrors() []*schema.Error {
	names := []string{"Endpoint", "RequestFailed", "BadRoute", "BadMethod", "BadRequest", "BadResponse", "ServerPanic", "InternalError", "ClientAborted", "StreamLost", "StreamFinished"}
	messages := []string{"endpoint error", "request failed", "bad route", "bad method", "bad request", "bad response", "server panic", "internal error", "request aborted by client", "stream lost", "stream finished"}
	status := []int{badRequest, badRequest, 404, 405, badRequest, serverError, serverError, serverError, badRequest, badRequest, 200}
	var errs []*schema.Error
	for i, name := range names {
		errs = append(errs, &schema.Error{Code: -i, Name: "Webrpc" + name, Message: messages[i], HTTPStatus: status[i]})
	}
	return errs
}
'''
initf='''
func init() {
	WebrpcErrors = append(WebrpcErrors, &schema.Error{Code: %s, Name: "%s", Message: "x", HTTPStatus: 400})
}
'''
M=[
('b-status','bug',['C25'],ed(E,('HTTPStatus: 404','HTTPStatus: 400'))),
('b-swap','bug',['C25'],ed(E,('Code: -5,','Code: -6,'),('Code: -6, Name: "WebrpcServerPanic"','Code: -5, Name: "WebrpcServerPanic"'))),
('b-dup','bug',['C25'],[(E,esrc,esrc+initf%('-10','WebrpcOther'))]),
('b-dupname','bug',['C25'],[(E,esrc,esrc+initf%('-11','WebrpcStreamlost'))]),
('b-positive','bug',['C25'],[(E,esrc,esrc+initf%('11','WebrpcOther'))]),
('b-prefix','bug',['C25'],[(E,esrc,esrc+initf%('-11','Other'))]),
('b-cut','bug',['C25'],ed(G,('WebrpcErrors:     WebrpcErrors,','WebrpcErrors:     WebrpcErrors[1:],'))),
('b-merge','bug',['C25'],ed(G,('WebrpcErrors:     WebrpcErrors,','WebrpcErrors:     append(WebrpcErrors[:0:0], proto.Errors...),'))),
('b-append','bug',['C25'],ed(G,('	vars := TemplateVars{','	for _, e := range WebrpcErrors {\n\t\tif e.HTTPStatus == 0 || config.Format {\n\t\t\te.HTTPStatus = 500\n\t\t}\n\t}\n	vars := TemplateVars{'))),
('b-proto','bug',['C25'],ed(G,('	vars := TemplateVars{','	for _, e := range proto.Errors {\n\t\tfor _, w := range WebrpcErrors {\n\t\t\tif e.Code == w.Code {\n\t\t\t\tw.Name = e.Name\n\t\t\t}\n\t\t}\n\t}\n	vars := TemplateVars{'))),
('r-func','refac',['C25'],[(E,esrc,func)]),
('r-more','refac',['C25'],[(E,esrc,esrc+initf%('-11','WebrpcOther'))]),
('r-clone','refac',['C25'],ed(G,('WebrpcErrors:     WebrpcErrors,','WebrpcErrors:     append([]*schema.Error(nil), WebrpcErrors...),'))),
('r-later','refac',['C25'],ed(G,('		WebrpcErrors:     WebrpcErrors,\n',''),('	genOutput := &GenOutput{}','	vars.WebrpcErrors = WebrpcErrors\n	genOutput := &GenOutput{}'))),
('r-ptr','refac',['C25'],ed(G,('tmpl.ExecuteTemplate(&b, "main", vars)','tmpl.ExecuteTemplate(&b, "main", &vars)'))),
]

C='internal/concrete/'
R=[]
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))
r('q01-rev-half',(C+'word/path.go','@func (p path) reverse','''func (p path) reverse() path {
	for i := 0; i < len(p)/2; i++ {
		j := len(p) - 1 - i
		p[i], p[j] = p[j], p[i]
	}
	return p
}'''))
r('q02-rev-range-half',(C+'word/path.go','@func (p path) reverse','''func (p path) reverse() path {
	n := len(p)
	for i := range p[:n/2] {
		p[i], p[n-i-1] = p[n-i-1], p[i]
	}
	return p
}'''))
DF=C+'detail/factory.go'
inter='''	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}
'''
r('q04-inter-flag',(DF,inter,'''	for _, objectTargetDetail := range objectTargetDetails {
		found := false
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				found = true
			}
		}
		if found {
			commonDetailIdentifiers = append(commonDetailIdentifiers, objectTargetDetail)
		}
	}
'''))
r('q05-inter-flag-break',(DF,inter,'''	for _, objectTargetDetail := range objectTargetDetails {
		found := false
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				found = true
				break
			}
		}
		if !found {
			continue
		}
		commonDetailIdentifiers = append(commonDetailIdentifiers, objectTargetDetail)
	}
'''))
r('q06-inter-append-break',(DF,inter,'''	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
				break
			}
		}
	}
'''))

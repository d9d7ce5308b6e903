#!/usr/bin/env python3
# usage: mutants.py [-t] [ID...]   tries out small changes of /repo (in a scratch copy), to find
# what the checks miss.  -t runs the stable tests as well.
import sys, os, subprocess, shutil, tempfile, json, re
M = []
def m(id, prop, *edits): M.append((id, prop, edits))
C='connector.go'; L='listener.go'; T='transport.go'; MSG='message.go'; IM='message-immutable.go'; CH='channel.go'; SY='syslog.go'
TCP='connector-tcp.go'; LT='listener-tcp.go'; LU='listener-unix.go'; LG='listener-unixdgram.go'; LO='connector-local.go'; LX='connector-local_unix.go'; D='dialer.go'
SL='sdata/list.go'; TK='sdata/tokens.go'

m('c01-unlocked-append','C01',(C,'''	c.lock.Lock()
	*c.queue = append(*c.queue, c.transport.Encode(msg))
	c.lock.Unlock()
''','''	q := append(*c.queue, c.transport.Encode(msg))
	c.lock.Lock()
	*c.queue = q
	c.lock.Unlock()
'''))
m('c01-pool','C01',(MSG,'''		ret = make([]byte, 0, l)
		ret = append(ret, prio...)
		ret = append(ret, ' ')
		ret = append(ret, ts...)
		ret = append(ret, ' ')
		ret = append(ret, []byte(msg.hostname)...)
		ret = append(ret, ' ')
		ret = append(ret, []byte(msg.appname)...)
		ret = append(ret, ' ')
		ret = append(ret, []byte(msg.procid)...)
		ret = append(ret, ' ')
		ret = append(ret, []byte(msg.msgid)...)
		ret = append(ret, ' ')
		ret = append(ret, sd...)
		ret = append(ret, ' ')
''','''		ret, _ = encPool.Get().([]byte)
		ret = ret[:0]
		ret = append(ret, prio...)
		ret = append(ret, ' ')
		ret = append(ret, ts...)
		ret = append(ret, ' ')
		ret = append(ret, []byte(msg.hostname)...)
		ret = append(ret, ' ')
		ret = append(ret, []byte(msg.appname)...)
		ret = append(ret, ' ')
		ret = append(ret, []byte(msg.procid)...)
		ret = append(ret, ' ')
		ret = append(ret, []byte(msg.msgid)...)
		ret = append(ret, ' ')
		ret = append(ret, sd...)
		ret = append(ret, ' ')
'''),(MSG,'var hostname, _ =','var encPool sync.Pool\n\nvar hostname, _ ='),(MSG,'"strings"\n','"strings"\n	"sync"\n'),
 (C,'	*c.queue = append(*c.queue, c.transport.Encode(msg))\n','	*c.queue = append(*c.queue, c.transport.Encode(msg))\n	encPool.Put(msg)\n'))
m('c01-cap','C01',(C,'	*c.queue = append(*c.queue, c.transport.Encode(msg))\n','''	if len(*c.queue) >= 1000 {
		*c.queue = (*c.queue)[1:]
	}
	*c.queue = append(*c.queue, c.transport.Encode(msg))
'''))
m('c01-swap','C01',(C,'		_, err := c.queue.WriteTo(c.output)\n','''		c.lock.Unlock()
		_, err := c.queue.WriteTo(c.output)
		c.lock.Lock()
'''))
m('c01-encode-shared','C01',(T,'''	ret := make([]byte, l+len(h)+1)
''','''	if cap(t5425) < l+len(h)+1 {
		t5425 = make([]byte, 0, 8*(l+len(h)+1))
	}
	ret := t5425[:l+len(h)+1]
	t5425 = t5425[l+len(h)+1 : cap(t5425)][:0]
'''),(T,'type (\n','var t5425 []byte\n\ntype (\n'))
m('c02-partial-other','C02',(C,'''	if c.partial != nil {
		(*c.queue)[0] = c.partial
		c.partial = nil
	}
''','''	if _, ok := err.(*net.OpError); ok && c.partial != nil {
		(*c.queue)[0] = c.partial
		c.partial = nil
	}
'''))
m('c02-dropfirst','C02',(C,'''			c.disconnect(err)
			return

		default:''','''			if len(*c.queue) > 1 && c.partial != nil {
				c.partial = nil
				*c.queue = (*c.queue)[1:]
			}
			c.disconnect(err)
			return

		default:'''))
m('c02-requeue-all','C02',(C,'''		default:
			c.disconnect(err)
''','''		default:
			c.partial = nil
			*c.queue = frames
			c.disconnect(err)
'''))
m('c03-giveup','C03',(C,'''		if err != nil {
			c.report(err)
			return
		}
		c.output = output
''','''		if err != nil {
			c.report(err)
			c.fails++
			if c.fails > 500 {
				c.lock.Lock()
				*c.queue = (*c.queue)[:0]
				c.lock.Unlock()
			}
			return
		}
		c.fails = 0
		c.output = output
'''),(C,'	// Addr see','	// Addr  see'),(C,'		queue        *net.Buffers\n','		queue        *net.Buffers\n		fails int\n'))
m('c03-backoff','C03',(C,'''	if c.output == nil {
		//''','''	if c.output == nil {
		if c.skip > 0 {
			c.skip--
			return
		}
		//'''),(C,'			c.report(err)\n			return\n		}\n		c.output','			c.report(err)\n			c.fails++\n			if c.fails > 4 {\n				c.skip = 4\n			}\n			return\n		}\n		c.fails = 0\n		c.output'),(C,'		queue        *net.Buffers\n','		queue        *net.Buffers\n		fails, skip int\n'))
m('c03-report-once','C03',(C,'			c.report(err)\n			return\n		}\n		c.output','			if !c.told {\n				c.report(err)\n				c.told = true\n			}\n			return\n		}\n		c.output'),(C,'		queue        *net.Buffers\n','		queue        *net.Buffers\n		told bool\n'))
m('c04-closefirst','C04',(C,'''		for len(*c.queue) > 0 {
			c.flushQueue()
		}
''','''		close(c.errChan)
		for len(*c.queue) > 0 {
			c.flushQueue()
		}
'''),(C,'''			c.output.Close()
		}
		close(c.errChan)
''','''			c.output.Close()
		}
'''))
m('c04-completed-early','C04',(C,'''		if c.output != nil {
			c.output.Close()
		}
		close(c.errChan)
		close(c.endCompleted)
''','''		close(c.endCompleted)
		if c.output != nil {
			c.output.Close()
		}
		close(c.errChan)
'''))
m('c04-oneflush','C04',(C,'''		for len(*c.queue) > 0 {
			c.flushQueue()
		}
''','''		for i := 0; i < 3 && len(*c.queue) > 0; i++ {
			c.flushQueue()
		}
'''))
m('c04-asyncreport','C04',(C,'''	select {
	case c.errChan <- err:
	default:
	}
''','''	go func() { c.errChan <- err }()
'''))
m('c04-nilout','C04',(C,'''		if c.output != nil {
			c.output.Close()
		}
		close(c.errChan)''','''		c.output.Close()
		close(c.errChan)'''))
m('c05-big','C05',(C,'errChan:      make(chan error, 1),','errChan:      make(chan error, 200),'),(C,'''	select {
	case c.errChan <- err:
	default:
	}
''','''	c.errChan <- err
'''))
m('c05-rbig','C05',(L,'chanErr := make(chan error, 10)','chanErr := make(chan error, 200)'),(L,'''	select {
	case chanErr <- err:
	default:
	}
''','''	chanErr <- err
'''))
m('c05-underlock','C05',(C,'''	c.report(err)
	c.output.Close()
''','''	select {
	case c.errChan <- err:
	case <-time.After(200 * time.Second):
	}
	c.output.Close()
'''))
m('c06-noclose','C06',(C,'''	c.output.Close()
	c.output = nil

	// a cut''','''	if c.partial == nil {
		c.output.Close()
	}
	c.output = nil

	// a cut'''))
m('c06-lateclose','C06',(C,'''	c.output.Close()
	c.output = nil

	// a cut''','''	old := c.output
	time.AfterFunc(time.Millisecond, func() { old.Close() })
	c.output = nil

	// a cut'''))
m('c06-keep','C06',(C,'''		default:
			c.disconnect(err)
			return
''','''		default:
			c.report(err)
			if err == io.ErrShortWrite {
				return
			}
			c.disconnect(err)
			return
'''))
m('c06-double','C06',(C,'		if c.output != nil {\n			c.output.Close()\n		}\n		close(c.errChan)','		if c.output != nil && len(*c.queue) == 0 && cap(*c.queue) == 0 {\n			c.output.Close()\n		}\n		close(c.errChan)'))
m('c07-match','C07',(C,'''			if sysErr, ok := typeErr.Err.(*os.SyscallError); ok && sysErr.Err == syscall.ENOBUFS {
				return''','''			if _, ok := typeErr.Err.(*os.PathError); ok || typeErr.Err == syscall.ENOBUFS {
				return'''))
m('c07-drop','C07',(C,'''sysErr.Err == syscall.ENOBUFS {
				return''','''sysErr.Err == syscall.ENOBUFS {
				if len(*c.queue) > 20 {
					*c.queue = (*c.queue)[1:]
				}
				return'''))
m('c07-report','C07',(C,'''sysErr.Err == syscall.ENOBUFS {
				return''','''sysErr.Err == syscall.ENOBUFS {
				c.report(err)
				return'''))
m('c07-unwrap','C07',(LO,'''	if c.network == "unixgram" {
''','''	if c.network == "unixgram" && c.address == "" {
'''))
m('c07-restart','C07',(C,'''sysErr.Err == syscall.ENOBUFS {
				return''','''sysErr.Err == syscall.ENOBUFS {
				if c.partial != nil {
					(*c.queue)[0] = c.partial
					c.partial = nil
				}
				return'''))
m('c08-double','C08',(D,'time.Tick(d.FlushDelay)','time.Tick(d.FlushDelay + d.FlushDelay/8)'))
m('c08-lt','C08',(D,'case d.FlushDelay <= time.Millisecond:','case d.FlushDelay < time.Millisecond:'))
m('c08-batch','C08',(C,'''		case <-c.ticker:
			c.flushQueue()
''','''		case <-c.ticker:
			if len(*c.queue) == 1 && c.partial == nil && !c.late {
				c.late = true
				continue
			}
			c.late = false
			c.flushQueue()
'''),(C,'		queue        *net.Buffers\n','		queue        *net.Buffers\n		late bool\n'))
m('c08-connectonly','C08',(C,'		c.output = output\n	}\n','		c.output = output\n		return\n	}\n'))
m('c09-one','C09',(L,'''		data = rest
	}
''','''		data = rest
		if len(data) < 40 && !atEOF {
			break
		}
	}
'''))
m('c09-suffix','C09',(T,'''	if i := bytes.IndexByte(buffer, '\\n'); i >= 0 {
		return''','''	if i := bytes.IndexByte(buffer, '\\n'); i >= 0 && (atEOF || i+1 < len(buffer)) {
		return'''))
m('c09-header','C09',(T,'if sepPos < 0 && len(buffer) < 20 {','if sepPos < 0 && len(buffer) < 3 {'))
m('c09-limit','C09',(T,'strconv.ParseUint(string(buffer[0:sepPos]), 10, 31)','strconv.ParseUint(string(buffer[0:sepPos]), 10, 16)'))
m('c09-grow','C09',(L,'make([]byte, readBuffer+2*done)\n','make([]byte, readBuffer+500)\n'))
m('c09-overlap','C09',(L,'		buffer = buffer[done+lenRead-len(data):]\n		done = len(data)\n','		done = copy(buffer, data)\n'))
m('c09-eofdata','C09',(L,'if lenRead > 0 || eof {','if err == nil || eof && lenRead == 0 {'))
m('c10-serial','C10',(L,'go r.tokenize(conn, chanErr)','r.tokenize(conn, chanErr)'))
m('c10-drop','C10',(L,'''	case <-r.closing:
		return false
	}
}''','''	case <-r.closing:
		return false
	case <-time.After(10 * time.Second):
		return true
	}
}'''))
m('c10-sharedbuf','C10',(L,'	buffer := make([]byte, readBuffer)\n','	buffer := rbPool.Get().([]byte)\n	defer rbPool.Put(buffer)\n'),(L,'const (\n	readBuffer','var rbPool = sync.Pool{New: func() interface{} { return make([]byte, readBuffer) }}\n\nconst (\n	readBuffer'))
m('c10-maxconn','C10',(L,'			go r.tokenize(conn, chanErr)\n','			r.sem <- struct{}{}\n			go func() {\n				r.tokenize(conn, chanErr)\n				<-r.sem\n			}()\n'),(L,'		transport Transport\n		pipeline ','		transport Transport\n		sem chan struct{}\n		pipeline '),(L,'		transport: t,\n','		transport: t,\n		sem: make(chan struct{}, 16),\n'))
m('c11-noreport','C11',(L,'				if !eof {\n					report(chanErr, err)','				if _, ok := err.(*net.OpError); !eof && !ok {\n					report(chanErr, err)'))
m('c11-unbuffered','C11',(L,'make(chan error, 10)','make(chan error)'))
m('c11-stop','C11',(L,'''		report(chanErr, err)
		select {''','''		report(chanErr, err)
		if ne, ok := err.(net.Error); ok && !ne.Temporary() {
			return
		}
		select {'''))
m('c11-lfcut','C11',(T,'''	if atEOF {
		return buffer, nil, ErrTransportIncomplete
	}

	return buffer, nil, nil
}

func (t tRFC5425) SuffixStrip''','''	return buffer, nil, nil
}

func (t tRFC5425) SuffixStrip'''))
m('c11-nullerr','C11',(L,'last := eof ||','last := err != nil ||'))
m('c11-maxerr','C11',(L,'''		report(chanErr, err)
		select {''','''		report(chanErr, err)
		if fails++; fails > 20 {
			return
		}
		select {'''),(L,'	defer r.workers.Wait()\n','	defer r.workers.Wait()\n	fails := 0\n'))
m('c12-prio','C12',('priority.go','	if tp > facilityMask|severityMask {\n		return errors.New("bad format : " + string(d))\n	}\n',''))
m('c12-escape','C12',(IM,'			if quoted {\n				i++\n			}','			i++'))
m('c12-int','C12',(T,'strconv.ParseUint(string(buffer[0:sepPos]), 10, 31)','strconv.ParseInt(string(buffer[0:sepPos]), 10, 63)'),(T,'if uint64(len(buffer)-start) < lenMsg {','if int64(len(buffer)) < int64(start)+lenMsg {'))
m('c12-stopbad','C12',(L,'''		if !r.queue(msg, err) {
			return nil, false''','''		if !r.queue(msg, err) || err == ErrPos0 {
			return nil, false'''))
m('c12-value','C12',(TK,'''			if len(ret) < 2 {
				return "", nil, fmt.Errorf("invalid char %v", data[length])
			}
''',''))
m('c12-goon','C12',(L,'			r.queue(MessageImmutable{}, err)\n			return nil, false','			r.queue(MessageImmutable{}, err)\n			return rest, rest != nil'))
m('c12-tq','C12',('sdata/timequality/tq.go','if len(data) < 2 || data[0]','if len(data) < 1 || data[0]'))
m('c13-noclosing','C13',(L,'		close(r.closing)\n','		r.workers.Wait()\n		close(r.closing)\n'))
m('c13-nowait','C13',(L,'	defer r.workers.Wait()\n',''))
m('c13-block','C13',(L,'''	select {
	case r.pipeline <- messageErrorPair{msg, err}:
		return true
	case <-r.closing:
		return false
	}''','''	r.pipeline <- messageErrorPair{msg, err}
	return true'''))
m('c13-gram','C13',(LG,'''	select {
	case <-r.end:
		return nil, errors.New("end")
	case <-r.idle:
	}
''','''	<-r.idle
	_ = errors.New
'''))
m('c14-reuse','C14',(LG,'		r.buff = make([]byte, s)\n		copy(r.buff, r.rbuff[0:s])','		r.buff = r.rbuff[0:s]'))
m('c14-copydown','C14',(L,'		if len(buffer)-done < 500 {\n			old := buffer[:done]\n			buffer = make([]byte, readBuffer+2*done)\n			copy(buffer, old)','		if len(buffer)-done < 500 {\n			old := buffer[:done]\n			if done > readBuffer/2 {\n				whole = make([]byte, readBuffer+2*done)\n			}\n			buffer = whole\n			copy(buffer, old)'),(L,'	buffer := make([]byte, readBuffer)\n','	buffer := make([]byte, readBuffer)\n	whole := buffer\n'))
m('c14-intern','C14',(IM,'	text = string(msg.buffer[msg.text:])\n	return\n}','	text = string(msg.buffer[msg.text:])\n	msg.buffer = append(msg.buffer[:msg.text], bytes.TrimSpace(msg.buffer[msg.text:])...)\n	return\n}'))
m('c14-hostname','C14',('helpers.go','return validatorGeneric([]byte(d), 255)','return validatorGeneric([]byte(d), 255)'),(IM,'	host = validHost(string(msg.buffer[begin:end]))','	host = validatorGeneric(msg.buffer[begin:end], 255)'))
m('c15-once','C15',(SY,'	syslog.once.Do(syslog.makeChannels)\n','	if syslog.channels == nil {\n		syslog.makeChannels()\n	}\n'))
m('c15-lazy','C15',(SY,'	syslog.once.Do(syslog.makeChannels)\n','	if len(syslog.channels) < 8 {\n		syslog.once.Do(syslog.makeChannels)\n	}\n'))
m('c15-threshold','C15',(SY,'sev <= syslog.minSev; sev++','sev < syslog.minSev || sev == 0; sev++'))
m('c15-sub','C15',(SY,'		minSev:   syslog.minSev,\n	}\n\n	return\n','		minSev:   syslog.minSev,\n		channels: syslog.channels,\n	}\n	if sub.channels != nil {\n		sub.once.Do(func() {})\n	}\n\n	return\n'))
m('c15-fac','C15',(SY,'facility: minPriority.Facility(),','facility: minPriority & 0x7f &^ 7,'))
m('c16-add','C16',(SL,'listSD[:len(listSD):len(listSD)]','listSD'))
m('c16-appname','C16',(CH,'''	return &msgChannel{
		priority: d.priority,
		hostname: d.hostname,
		pid:      d.pid,
		appname:  d.appname,
		msgid:    validMsgid(msgid),
		output:   d.output,
	}''','''	if d.msgid == "-" && d.appname != "-" && msgid != "" {
		n := *d
		n.msgid = validMsgid(msgid)
		return &n
	}
	d.msgid = validMsgid(msgid)
	return d'''))
m('c16-memo','C16',(CH,'''func (d *msgChannel) Msgid(msgid string) Channel {
	return &''','''func (d *msgChannel) Msgid(msgid string) Channel {
	if d.last != nil && d.last.msgid == msgid {
		return d.last
	}
	d.last = &'''),(CH,'''		msgid:    validMsgid(msgid),
		output:   d.output,
	}
}''','''		msgid:    validMsgid(msgid),
		output:   d.output,
	}
	return d.last
}'''),(CH,'		output   *Sender\n	}\n','		output   *Sender\n		last *msgChannel\n	}\n'))
m('c17-lazy','C17',(RFC:='message.go','2006-01-02T15:04:05.999999Z07:00','2006-01-02T15:04:05.999Z07:00'))
m('c17-utc','C17',(MSG,'msg.timestamp.Format(RFC5424TimeStamp)','msg.timestamp.Truncate(time.Minute).Add(time.Duration(msg.timestamp.Second())*time.Second + time.Duration(msg.timestamp.Nanosecond())).Format(RFC5424TimeStamp)'))
m('c17-cache','C17',(CH,'func (c *msgChannel) Log(d string, sd ...sdata.StructuredData) {\n	msg := forgeMessage(c.priority, Now(),','var lastNow time.Time\nvar lastN int\n\nfunc coarse() time.Time {\n	if lastN%8 == 0 {\n		lastNow = Now()\n	}\n	lastN++\n	return lastNow\n}\n\nfunc (c *msgChannel) Log(d string, sd ...sdata.StructuredData) {\n	msg := forgeMessage(c.priority, coarse(),'))
m('c17-after','C17',(CH,'''	c.output.Send(msg)
}''','''	c.output.Send(msg.Time(Now().Add(0)))
}'''))
m('c18-year','C18',(MSG,'if now.Month() == 1 && ts.Month() == 12 {','if now.YearDay() == 1 && ts.Month() == 12 {'))
m('c18-after','C18',(MSG,'if now.Month() == 1 && ts.Month() == 12 {','if ts.Month() > now.Month() || ts.Month() == now.Month() && ts.Day() > now.Day()+1 && now.Day() < 3 {'))
m('c18-cacheyear','C18',(MSG,'	year := now.Year()\n','	if bootYear == 0 {\n		bootYear = now.Year()\n	}\n	year := bootYear\n'),(MSG,'func stampToTs','var bootYear int\n\nfunc stampToTs'))
m('c18-epoch','C18',(MSG,'return time.Unix(sec, nsec)','return time.Unix(0, sec*1000000000+nsec)'))
m('c18-delta','C18',(MSG,'time.Duration(nsec)*time.Nanosecond + time.Duration(sec)*time.Second','time.Duration(float64(sec)*1e9+float64(nsec))'))
m('c18-now','C18',(MSG,'	return Message{msg.prio, time.Now(), msg.hostname, msg.appname','	if msg.timestamp.After(time.Now()) {\n		return msg\n	}\n	return Message{msg.prio, time.Now(), msg.hostname, msg.appname'))
m('c19-first','C19',(TCP,'for _, ip := range ips {\n		addr := &','for i, ip := range ips {\n		if i > 3 {\n			break\n		}\n		addr := &'))
m('c19-timeout','C19',(TCP,'context.WithTimeout(context.Background(), 5*time.Second)','context.WithCancel(context.Background())'))
m('c19-empty','C19',(TCP,'	if len(ips) == 0 {\n		return nil, ErrNoConnection\n	}\n',''))
m('c19-v4','C19',(TCP,'	default:\n		ips = rawips\n','	default:\n		for _, ip := range rawips {\n			if ip.IP.To4() != nil {\n				ips = append(ips, ip)\n			}\n		}\n		if len(ips) == 0 {\n			ips = rawips\n		}\n'))
m('c19-cache','C19',(TCP,'	rawips, err := resolver.LookupIPAddr(ctx, addr)\n	cancel()\n','	rawips := c.known\n	if rawips == nil {\n		rawips, err = resolver.LookupIPAddr(ctx, addr)\n		c.known = rawips\n	}\n	cancel()\n'),(TCP,'		network, address string\n','		network, address string\n		known []net.IPAddr\n'),(TCP,'return &tcpConn{network, address}','return &tcpConn{network, address, nil}'))
m('c19-reverse','C19',(TCP,'for _, ip := range ips {\n		addr := &','for i := range ips {\n		ip := ips[len(ips)-1-i]\n		addr := &'))
m('c20-anyerr','C20',(LU,'	if !ok || sysErr.Err != syscall.ECONNREFUSED {\n','	if !ok || sysErr.Err == syscall.EAGAIN {\n'))
m('c20-stat','C20',(LU,'os.Lstat(address)','os.Stat(address)'))
m('c20-loop','C20',(LU,'err != nil && tries < staleTries; tries++ {\n		if !removeStale("unix",','err != nil; tries++ {\n		if !removeStale("unix",'))
m('c20-mode','C20',(LU,'	if stat.Mode()&os.ModeSocket == 0 {\n','	if stat.Mode().IsDir() {\n'))
m('c20-gram','C20',(LG,'removeStale("unixgram", address, err)','removeStale("unix", address, err)'))
m('c20-removeerr','C20',(LU,'return err == nil || os.IsNotExist(err)','return true'))
m('c21-linger','C21',(TCP,'contcp.SetLinger(-1)','contcp.SetLinger(0)'))
m('c21-nodelay','C21',(C,'	c.output.Close()\n	c.output = nil\n','	c.output.Close()\n	if _, ok := err.(*net.OpError); ok || c.partial != nil {\n		c.output = nil\n	}\n'))
m('c22-nolock','C22',(SL,'	registry.lock.Lock()\n	defer registry.lock.Unlock()\n\n	for _, sdid','	for _, sdid'))
m('c22-grouplock','C22',(SL,'	registry.lock.Lock()\n	defer registry.lock.Unlock()\n\n	for _, s :=','	for _, s :='))
m('c22-lastwins','C22',(SL,'''	for _, s := range sdids {
		key := s.String()
		if _, ok := registry.sdids[key]; !ok {
			registry.sdids[key] = s
		}
	}''','''	for _, s := range sdids {
		registry.sdids[s.String()] = s
	}'''))
m('c22-cache','C22',(SL,'	return unknownSDID.Found(data)\n','	if sd, ok := registry.seen[string(data)]; ok {\n		return sd, true\n	}\n	sd, ok := unknownSDID.Found(data)\n	if ok && len(data) < 30 {\n		registry.seen[string(data)] = sd\n	}\n	return sd, ok\n'),(SL,'		sdids: make(map[string]SDID),\n','		sdids: make(map[string]SDID),\n		seen: make(map[string]StructuredData),\n'),(SL,'		sdids map[string]SDID\n','		sdids map[string]SDID\n		seen map[string]StructuredData\n'),(SL,'''	for _, sdid := range registry.sdids {
		if''','''	if sd, ok := registry.seen[string(data)]; ok {
		return sd, true
	}
	for _, sdid := range registry.sdids {
		if'''))
m('c22-generic','C22',('sdata/sd-generic.go','	if len(data) == 0 {\n		return genericSD{sdid, nil}, true\n	}\n\n	return nil, false','	if len(data) > 0 && data[0] != \' \' {\n		return nil, false\n	}\n	return genericSD{sdid, nil}, true'))
m('c22-unlockpanic','C22',(SL,'''	for _, sdid := range registry.sdids {
		if sd, ok := sdid.Found(data); ok {
			return sd, ok
		}
	}
''','''	defs := registry.sdids
	registry.lock.Unlock()
	for _, sdid := range defs {
		if sd, ok := sdid.Found(data); ok {
			registry.lock.Lock()
			return sd, ok
		}
	}
	registry.lock.Lock()
'''))
m('c27-encode-shared','C27',(T,"""	ret := make([]byte, l+len(h)+1)
""","""	if cap(t5425) < l+len(h)+1 {
		t5425 = make([]byte, 0, 8*(l+len(h)+1))
	}
	ret := t5425[:l+len(h)+1]
	t5425 = t5425[l+len(h)+1 : cap(t5425)][:0]
"""),(T,'type (\n','var t5425 []byte\n\ntype (\n'))
m('c27-flushlock','C27',(C,'func (c *Sender) flushQueue() {\n','var flushing sync.Mutex\n\nfunc (c *Sender) flushQueue() {\n	flushing.Lock()\n	defer flushing.Unlock()\n'))
m('c27-connlimit','C27',(L,'			r.workers.Add(1)\n','			slots <- struct{}{}\n			r.workers.Add(1)\n'),(L,'	defer r.workers.Done()\n','	defer r.workers.Done()\n	defer func() { <-slots }()\n'),(L,'const (\n','var slots = make(chan struct{}, 3)\n\nconst (\n'))
m('c27-lasterr','C27',(C,'	c.report(err)\n	c.output.Close()','	lastErr = err\n	c.report(lastErr)\n	c.output.Close()'),(C,'			c.report(err)\n','			lastErr = err\n			c.report(lastErr)\n'),(C,'// report never','var lastErr error\n\n// report never'))
m('c27-endall','C27',(L,'		closing:   make(chan struct{}),\n','		closing:   closing,\n'),(L,'		close(r.closing)\n','		select {\n		case <-r.closing:\n		default:\n			close(r.closing)\n		}\n'),(L,'const (\n','var closing = make(chan struct{})\n\nconst (\n'))
m('c26-remember','C26',(LO,'	guess := *c\n	return guess.localWriteCloser(guess.osGuessConnnector())','	return c.localWriteCloser(c.osGuessConnnector())'))
m('c26-streamonly','C26',(LX,'	if c.address != "" {\n		for _, network := range logTypes {','	if c.address != "" {\n		for _, network := range logTypes[:1] {'))
m('c26-paths','C26',(LX,'"/var/run/log", "/dev/log"','"/dev/log"'))
m('c26-refused','C26',(LX,'''			if err == nil {
				c.network = network
				c.address = path
				return conn, nil
			}
''','''			if err == nil {
				c.network = network
				c.address = path
				return conn, nil
			}
			if opErr, ok := err.(*net.OpError); ok && opErr.Temporary() {
				return nil, err
			}
'''))


# second wave
m('w1-backing','C01',(C,"""	for len(*c.queue) > 0 {
		frames := append([][]byte(nil), *c.queue...)
		if c.partial != nil {
			frames[0] = c.partial
		}

		_, err := c.queue.WriteTo(c.output)
""","""	for len(*c.queue) > 0 {
		frames := append([][]byte(nil), *c.queue...)
		if c.partial != nil {
			frames[0] = c.partial
		}

		// logging does not wait while the batch is written
		batch := *c.queue
		*c.queue = batch[len(batch):]
		c.lock.Unlock()
		_, err := batch.WriteTo(c.output)
		c.lock.Lock()
		if len(batch) > 0 {
			*c.queue = append(batch, *c.queue...)
		} else if len(*c.queue) == 0 {
			*c.queue = (*c.queue)[:0]
			if err == nil {
				break
			}
		}
"""))
m('w1-iovmax','C01',(C,"""		_, err := c.queue.WriteTo(c.output)
""","""		// no more than what writev accepts
		batch := *c.queue
		if len(batch) > 1024 {
			batch = batch[:1024]
		}
		_, err := batch.WriteTo(c.output)
		*c.queue = (*c.queue)[len(*c.queue)-len(batch):]
		if len(*c.queue) > 1024 {
			*c.queue = batch
		}
"""))
m('w1-4096','C01',(C,'	*c.queue = append(*c.queue, c.transport.Encode(msg))\n',"""	if len(*c.queue) >= 4096 {
		*c.queue = (*c.queue)[1:]
	}
	*c.queue = append(*c.queue, c.transport.Encode(msg))
"""))
m('w1-runes','C01',(T,'	h := []byte(strconv.Itoa(l))\n','	h := []byte(strconv.Itoa(utf8.RuneCount(d)))\n'),(T,'	"strconv"\n','	"strconv"\n	"unicode/utf8"\n'))
m('w1-trim','C01',(MSG,'func forgeMessage(prio Priority, ts time.Time, host, app, pid, msgid, message string) Message {\n	return Message{prio, ts, host, app, pid, msgid, sdata.EmptyList(), strings.TrimRightFunc(message, unicode.IsSpace)}','func forgeMessage(prio Priority, ts time.Time, host, app, pid, msgid, message string) Message {\n	return Message{prio, ts, host, app, pid, msgid, sdata.EmptyList(), strings.TrimFunc(message, unicode.IsSpace)}'))
m('w2-twice','C02',(C,"""		if c.partial != nil {
			frames[0] = c.partial
		}
""",""))
m('w3-cumul','C03',(C,"""		if err != nil {
			c.report(err)
			return
		}
""","""		if err != nil {
			c.failures++
			if c.failures > 40 {
				*c.queue = (*c.queue)[:0]
			}
			c.report(err)
			return
		}
"""),(C,'		queue        *net.Buffers\n','		queue        *net.Buffers\n		failures     int\n'))
m('w3-skip','C03',(C,"""		if err != nil {
			c.report(err)
			return
		}
""","""		if err != nil {
			c.failures++
			c.report(err)
			return
		}
		c.failures = 0
"""),(C,"""		case <-c.ticker:
			c.flushQueue()
""","""		case <-c.ticker:
			if c.failures > 3 && ticks%2 == 1 {
				ticks++
				continue
			}
			ticks++
			c.flushQueue()
"""),(C,'	for {\n		select {\n','	ticks := 0\n	for {\n		select {\n'),(C,'		queue        *net.Buffers\n','		queue        *net.Buffers\n		failures     int\n'))
m('w4-endlock','C04',(C,"""func (c *Sender) End() {
	close(c.endAsked)
	<-c.endCompleted
""","""func (c *Sender) End() {
	c.lock.Lock()
	defer c.lock.Unlock()
	if len(*c.queue) > 0 {
		c.lock.Unlock()
		defer c.lock.Lock()
	}
	close(c.endAsked)
	<-c.endCompleted
"""))
m('w6-double','C06',(C,"""		if c.output != nil {
			c.output.Close()
		}
		close(c.errChan)
""","""		if c.output != nil && len(c.errChan) == 0 {
			c.output.Close()
		}
		close(c.errChan)
"""))
m('w8-round','C08',(D,'time.Tick(d.FlushDelay)','time.Tick(d.FlushDelay.Round(time.Millisecond))'))
m('w8-min','C08',(D,'		ticker = time.Tick(d.FlushDelay)\n','		if d.FlushDelay < 5*time.Millisecond {\n			d.FlushDelay = 5 * time.Millisecond\n		}\n		ticker = time.Tick(d.FlushDelay)\n'))
m('w8-idle','C08',(C,"""		case <-c.ticker:
			c.flushQueue()
""","""		case <-c.ticker:
			c.lock.Lock()
			empty := len(*c.queue) == 0
			c.lock.Unlock()
			if empty {
				idle++
				continue
			}
			if idle > 8 {
				idle = 0
				continue
			}
			c.flushQueue()
"""),(C,'	for {\n		select {\n','	idle := 0\n	for {\n		select {\n'))
m('w9-cr','C09',(T,"""	if i := bytes.IndexByte(buffer, '\\n'); i >= 0 {
		return buffer[0:i], buffer[i+1:], nil""","""	if i := bytes.IndexByte(buffer, '\\n'); i >= 0 {
		return bytes.TrimSuffix(buffer[0:i], []byte{'\\r'}), buffer[i+1:], nil"""))
m('w9-hdr5','C09',(T,'if sepPos < 0 && len(buffer) < 20 {','if sepPos < 0 && len(buffer) < 5 {'))
m('w9-exact','C09',(T,'	if uint64(len(buffer)-start) < lenMsg {','	if uint64(len(buffer)-start) <= lenMsg && !atEOF {'))
m('w9-bufedge','C09',(L,'		if len(buffer)-done < 500 {\n','		if len(buffer) == done {\n			return\n		}\n		if len(buffer)-done < 2 {\n'))
m('w10-twoqueue','C10',(L,"""	select {
	case r.pipeline <- messageErrorPair{msg, err}:
		return true
""","""	if err == nil && len(msg.buffer) > 1000 {
		// long ones are handed over without holding the others up
		r.workers.Add(1)
		go func() {
			defer r.workers.Done()
			select {
			case r.pipeline <- messageErrorPair{msg, err}:
			case <-r.closing:
			}
		}()
		return true
	}
	select {
	case r.pipeline <- messageErrorPair{msg, err}:
		return true
"""))
m('w11-backoff','C11',(L,'		case <-time.After(acceptDelay):\n','		case <-time.After(delay):\n			if delay *= 2; delay > 10*time.Minute {\n				delay = 10 * time.Minute\n			}\n'),(L,'	for {\n		conn, err := r.listener.Accept()','	delay := acceptDelay\n	for {\n		conn, err := r.listener.Accept()'))
m('w11-timeout','C11',(L,"""		if err != nil {
			select {
			case <-r.closing:
""","""		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			report(chanErr, err)
			continue
		}
		if err != nil {
			select {
			case <-r.closing:
"""))
m('w11-reset','C11',(L,'		eof := err == io.EOF\n','		eof := err == io.EOF || err == io.ErrUnexpectedEOF || err == io.ErrClosedPipe\n'))
m('w11-anyeof','C11',(L,'		last := eof || isDatagrams','		last := err != nil || isDatagrams'))
m('w11-temp','C11',(L,"""		report(chanErr, err)
		select {
		case <-r.end:""","""		if ne, ok := err.(net.Error); !ok || !ne.Temporary() {
			report(chanErr, err)
		}
		select {
		case <-r.end:"""))
m('w12-bom','C12',(IM,'	text = string(msg.buffer[msg.text:])','	text = strings.TrimPrefix(string(msg.buffer[msg.text:]), "\\uFEFF")'),(IM,'	"io"\n','	"io"\n	"strings"\n'))
m('w12-manysd','C12',(IM,"""			begin += l
			msg.index = append(msg.index, begin)
""","""			begin += l
			if len(msg.index) < 30 {
				msg.index = append(msg.index, begin)
			}
"""))
m('w12-ctl','C12',(IM,"""	begin := 0
	for parts := 0; parts < 6; parts++ {""","""	for i, b := range data {
		if b == 127 {
			data[i] = '?'
		}
	}
	begin := 0
	for parts := 0; parts < 6; parts++ {"""))
m('w12-hostile','C12',(T,'	lenBuff := start + int(lenMsg)\n','	if lenMsg == 0 {\n		return nil, buffer[start:], nil\n	}\n	lenBuff := start + int(lenMsg)\n'))
m('w12-dash','C12',(IM,"""	case '-':
		begin++
		msg.index""","""	case '-':
		begin++
		if begin < len(data) && data[begin] != ' ' {
			begin = len(data)
		}
		msg.index"""))
m('w13-addinside','C13',(L,"""			r.workers.Add(1)
			go r.tokenize(conn, chanErr)
""","""			go r.tokenize(conn, chanErr)
"""),(L,'	defer r.workers.Done()\n','	r.workers.Add(1)\n	defer r.workers.Done()\n'))
m('w13-drain','C13',(L,"""	select {
	case r.pipeline <- messageErrorPair{msg, err}:
		return true
	case <-r.closing:
		return false
	}
""","""	select {
	case <-r.end:
		select {
		case r.pipeline <- messageErrorPair{msg, err}:
		default:
		}
		return true
	default:
	}
	select {
	case r.pipeline <- messageErrorPair{msg, err}:
		return true
	case <-r.closing:
		return false
	}
"""))
m('w14-shrink','C14',(L,"""		if len(buffer)-done < 500 {
			old := buffer[:done]
			buffer = make([]byte, readBuffer+2*done)
			copy(buffer, old)
		}
""","""		if len(buffer)-done < 500 {
			old := buffer[:done]
			buffer = whole
			if done > len(whole)/2 {
				whole = make([]byte, readBuffer+2*done)
				buffer = whole
			}
			copy(buffer, old)
		}
"""),(L,'	buffer := make([]byte, readBuffer)\n	for {','	buffer := make([]byte, readBuffer)\n	whole := buffer\n	for {'))
m('w14-sdalias','C14',('sdata/list.go','	return unknownSDID.Found(data)','	scratch = append(scratch[:0], data...)\n	return unknownSDID.Found(scratch)'),('sdata/list.go','	emptyList = List([]StructuredData{})\n','	emptyList = List([]StructuredData{})\n	scratch   []byte\n'))
m('w15-mask','C15',('priority.go','const facilityMask = 0xf8','const facilityMask = 0x78'))
m('w15-trunc','C15',('helpers.go','[]byte(d), 48)','[]byte(d), 47)'))
m('w15-msgid','C15',('helpers.go','[]byte(d), 32)','[]byte(d), 31)'))
m('w15-del','C15',('helpers.go','data[i] > 126','data[i] > 127'))
m('w15-debug','C15',(CH,'	switch c.priority.Severity() {\n','	switch c.priority & LogDEBUG {\n'))
m('w15-subapp','C15',(SY,'		appname = syslog.appname + "/" + subAppName\n','		appname = syslog.appname + "/" + subAppName\n		if len(appname) > 48 {\n			appname = subAppName\n		}\n'))
m('w15-once','C15',(SY,'	syslog.once.Do(syslog.makeChannels)\n\n	return syslog.channels[sev.Severity()]','	if syslog.channels == nil {\n		syslog.once.Do(syslog.makeChannels)\n	}\n	return syslog.channels[sev.Severity()]'))
m('w16-cacheapp','C16',(CH,"""	return &msgChannel{
		priority: d.priority,
		hostname: d.hostname,
		pid:      d.pid,
		appname:  validApp(appname),
		msgid:    d.msgid,
		output:   d.output,
	}
""","""	key := appKey{d.output, d.priority, d.hostname, appname}
	if ch, ok := derived.Load(key); ok {
		return ch.(Channel)
	}
	ch := &msgChannel{
		priority: d.priority,
		hostname: d.hostname,
		pid:      d.pid,
		appname:  validApp(appname),
		msgid:    d.msgid,
		output:   d.output,
	}
	derived.Store(key, ch)
	return ch
"""),(CH,'type (\n','type appKey struct {\n	output *Sender\n	priority Priority\n	hostname, appname string\n}\n\nvar derived sync.Map\n\ntype (\n'),(CH,'	"log"\n','	"log"\n	"sync"\n'))
m('w16-sdplace','C16',('sdata/list.go','listSD[:len(listSD):len(listSD)]','listSD'))
m('w16-lazysd','C16',(MSG,'msg.msgid, msg.sd.Add(data...), msg.message}','msg.msgid, sdata.List(data), msg.message}'))
m('w17-zone','C17',(MSG,'"2006-01-02T15:04:05.999999Z07:00"','"2006-01-02T15:04:05.999999Z07"'))
m('w17-ms','C17',(CH,'forgeMessage(c.priority, Now(), c.hostname, c.appname, c.pid, c.msgid, string(d))\n\n	if','forgeMessage(c.priority, Now().Truncate(10*time.Microsecond), c.hostname, c.appname, c.pid, c.msgid, string(d))\n\n	if'))
m('w17-mono','C17',(CH,'	Now = time.Now\n','	Now = now\n'),(CH,'type (\n','var start = time.Now()\n\n// now does not jump\nfunc now() time.Time {\n	return start.Add(time.Since(start))\n}\n\ntype (\n'))
m('w18-2038','C18',(MSG,'func epochToTs(strSec string, strNsec string) time.Time {\n	sec, _ := strconv.ParseInt(strSec, 10, 64)','func epochToTs(strSec string, strNsec string) time.Time {\n	sec, _ := strconv.ParseInt(strSec, 10, 32)'))
m('w18-deltansec','C18',(MSG,'time.Duration(nsec)*time.Nanosecond + time.Duration(sec)*time.Second','time.Duration(int32(nsec))*time.Nanosecond + time.Duration(int32(sec))*time.Second'))
m('w18-local','C18',(MSG,'ts.Nanosecond(), ts.Location())','ts.Nanosecond(), now.Location())'))
m('w18-feb29','C18',(MSG,'	ts, _ := time.Parse(time.Stamp, stamp)\n	year := now.Year()\n','	year := now.Year()\n	ts, _ := time.Parse("2006 "+time.Stamp, strconv.Itoa(year)+" "+stamp)\n'))
m('w19-ctxonce','C19',(TCP,'	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)\n	rawips, err := resolver.LookupIPAddr(ctx, addr)\n	cancel()\n','	c.once.Do(func() {\n		c.ctx, c.cancel = context.WithTimeout(context.Background(), 5*time.Second)\n	})\n	rawips, err := resolver.LookupIPAddr(c.ctx, addr)\n'),(TCP,'		network, address string\n','		network, address string\n		once             sync.Once\n		ctx              context.Context\n		cancel           func()\n'),(TCP,'	return &tcpConn{network, address}','	return &tcpConn{network: network, address: address}'),(TCP,'	"strconv"\n','	"strconv"\n	"sync"\n'))
m('w19-limit','C19',(TCP,'	var contcp *net.TCPConn\n','	if len(ips) > 4 {\n		ips = ips[:4]\n	}\n	var contcp *net.TCPConn\n'))
m('w19-sticky','C19',(TCP,'		contcp, err = net.DialTCP(c.network, nil, addr)\n		if err == nil {\n			break\n		}\n','		contcp, err = net.DialTCP(c.network, nil, addr)\n		if err == nil {\n			break\n		}\n		if len(ips) > 2 && ip.IP.To4() == nil {\n			break\n		}\n'))
m('w20-mode','C20',(LU,'	if stat.Mode()&os.ModeSocket == 0 {\n','	if stat.Mode().IsRegular() {\n'))
m('w20-stat','C20',(LU,'	stat, err := os.Lstat(address)','	stat, err := os.Stat(address)'))
m('w20-timeoutdial','C20',(LU,'	if !ok || sysErr.Err != syscall.ECONNREFUSED {\n','	if !ok || sysErr.Err != syscall.ECONNREFUSED && sysErr.Err != syscall.EAGAIN {\n'))
m('w20-wrongtype','C20',(LU,'	if !ok || sysErr.Err != syscall.ECONNREFUSED {\n','	if !ok || sysErr.Err != syscall.ECONNREFUSED && sysErr.Err != syscall.EPROTOTYPE {\n'))
m('w21-refused','C21',(C,'sysErr.Err == syscall.ENOBUFS {','(sysErr.Err == syscall.ENOBUFS || sysErr.Err == syscall.ECONNREFUSED) {'))
m('w21-epipe','C06',(C,'sysErr.Err == syscall.ENOBUFS {','(sysErr.Err == syscall.ENOBUFS || sysErr.Err == syscall.EPIPE && len(*c.queue) == 1) {'))
m('w22-rlock','C22',('sdata/list.go','func (registry *registryT) Found(data []byte) (StructuredData, bool) {\n	registry.lock.Lock()\n	defer registry.lock.Unlock()\n','func (registry *registryT) Found(data []byte) (StructuredData, bool) {\n	registry.lock.Lock()\n	sdids := registry.sdids\n	registry.lock.Unlock()\n'),('sdata/list.go','	for _, sdid := range registry.sdids {\n','	for _, sdid := range sdids {\n'))
m('w26-stat','C26',(LX,"""		for _, path := range logPaths {
""","""		for _, path := range logPaths {
			if _, err := os.Stat(path); err == nil {
				logPaths = []string{path}
			}
"""),(LX,'	"net"\n','	"net"\n	"os"\n'))

m('x10-idle10m','C10',(LT,'	conn.SetReadBuffer(readBuffer)\n','	conn.SetReadBuffer(readBuffer)\n	conn.SetReadDeadline(time.Now().Add(10 * time.Minute))\n'),(LT,'	"net"\n','	"net"\n	"time"\n'))
m('x10-idle10m-unix','C10',(LU,'	conn.SetReadBuffer(readBuffer)\n','	conn.SetReadBuffer(readBuffer)\n	conn.SetReadDeadline(time.Now().Add(10 * time.Minute))\n'),(LU,'	"syscall"\n','	"syscall"\n	"time"\n'))
m('x10-idle24h','C10',(LT,'	conn.SetReadBuffer(readBuffer)\n','	conn.SetReadBuffer(readBuffer)\n	conn.SetReadDeadline(time.Now().Add(24 * time.Hour))\n'),(LT,'	"net"\n','	"net"\n	"time"\n'))
m('x01-len16','C01',(T,'	h := []byte(strconv.Itoa(l))\n','	h := []byte(strconv.Itoa(int(uint16(l))))\n'))
m('x03-bounded','C03',(C,'	*c.queue = append(*c.queue, c.transport.Encode(msg))\n','	if len(*c.queue) >= 10000 {\n		*c.queue = (*c.queue)[1:]\n	}\n	*c.queue = append(*c.queue, c.transport.Encode(msg))\n'))
m('x03-backoff','C03',(C,"""		output, err := c.connector.Connect()
		if err != nil {
			c.report(err)
			return
		}
""","""		if c.wait > 0 {
			c.wait--
			return
		}
		output, err := c.connector.Connect()
		if err != nil {
			c.report(err)
			if c.fails++; c.fails > 20 {
				c.wait = c.fails / 20
			}
			return
		}
		c.fails = 0
"""),(C,'		queue        *net.Buffers\n','		queue        *net.Buffers\n		wait, fails  int\n'))
m('x03-backoff-late','C03',(C,"""		output, err := c.connector.Connect()
		if err != nil {
			c.report(err)
			return
		}
""","""		if c.wait > 0 {
			c.wait--
			return
		}
		output, err := c.connector.Connect()
		if err != nil {
			c.report(err)
			if c.fails++; c.fails > 500 {
				c.wait = 1
			}
			return
		}
		c.fails = 0
"""),(C,'		queue        *net.Buffers\n','		queue        *net.Buffers\n		wait, fails  int\n'))
m('x11-giveup','C11',(L,"""		report(chanErr, err)
		select {
""","""		report(chanErr, err)
		if fails++; fails > 100 {
			return
		}
		select {
"""),(L,"""	for {
		conn, err := r.listener.Accept()
		if err == nil {
""","""	fails := 0
	for {
		conn, err := r.listener.Accept()
		if err == nil {
			fails = 0
"""))
m('x11-giveup-never-reset','C11',(L,"""		report(chanErr, err)
		select {
""","""		report(chanErr, err)
		if fails++; fails > 50 {
			return
		}
		select {
"""),(L,"""	for {
		conn, err := r.listener.Accept()
		if err == nil {
""","""	fails := 0
	for {
		conn, err := r.listener.Accept()
		if err == nil {
"""))
m('x11-delaydoubles','C11',(L,'		case <-time.After(acceptDelay):\n','		case <-time.After(delay):\n			delay *= 2\n'),(L,"""	for {
		conn, err := r.listener.Accept()
		if err == nil {
""","""	delay := acceptDelay
	for {
		conn, err := r.listener.Accept()
		if err == nil {
"""))
m('x15-validcache','C15',('helpers.go','func validApp(d string) string {\n	return validatorGeneric([]byte(d), 48)\n','var validApps = map[string]string{}\n\nfunc validApp(d string) string {\n	v, ok := validApps[d]\n	if !ok {\n		v = validatorGeneric([]byte(d), 48)\n		validApps[d] = v\n	}\n	return v\n'))
m('x17-tscache-zone','C17',(MSG,'	ts := []byte(msg.timestamp.Format(RFC5424TimeStamp))\n',"""	tsLock.Lock()
	if sec := msg.timestamp.Unix(); sec != tsSec || tsPrefix == "" {
		tsSec, tsPrefix, tsZone = sec, msg.timestamp.Format("2006-01-02T15:04:05"), msg.timestamp.Format("Z07:00")
	}
	ts := []byte(tsPrefix + msg.timestamp.Format(".999999") + tsZone)
	tsLock.Unlock()
"""),(MSG,'var hostname, _ =','var (\n	tsLock           sync.Mutex\n	tsSec            int64\n	tsPrefix, tsZone string\n)\n\nvar hostname, _ ='),(MSG,'	"strings"\n','	"strings"\n	"sync"\n'))
m('x17-tscache-race','C17',(MSG,'	ts := []byte(msg.timestamp.Format(RFC5424TimeStamp))\n',"""	_, off := msg.timestamp.Zone()
	if key := [2]int64{msg.timestamp.Unix(), int64(off)}; key != tsKey {
		tsKey = key
		tsPrefix, tsZone = msg.timestamp.Format("2006-01-02T15:04:05"), msg.timestamp.Format("Z07:00")
	}
	ts := []byte(tsPrefix + msg.timestamp.Format(".999999") + tsZone)
"""),(MSG,'var hostname, _ =','var (\n	tsKey            [2]int64\n	tsPrefix, tsZone string\n)\n\nvar hostname, _ ='))
m('x15-onelogger','C15',(CH,"""	switch c.priority.Severity() {
	case LogDEBUG:""","""	if c.logger != nil {
		return c.logger
	}
	defer func() { c.logger = l }()
	switch c.priority.Severity() {
	case LogDEBUG:"""),(CH,'func (c *msgChannel) Logger(prefix string) *log.Logger','func (c *msgChannel) Logger(prefix string) (l *log.Logger)'),(CH,'		msgid    string\n','		msgid    string\n		logger   *log.Logger\n'))
m('x15-splitlines','C15',(CH,"""	c.output.Send(forgeMessage(c.priority, Now(), c.hostname, c.appname, c.pid, c.msgid, string(d)))
	return len(d), nil
""","""	for _, line := range strings.Split(strings.TrimRight(string(d), "\\n"), "\\n") {
		c.output.Send(forgeMessage(c.priority, Now(), c.hostname, c.appname, c.pid, c.msgid, line))
	}
	return len(d), nil
"""),(CH,'	"log"\n','	"log"\n	"strings"\n'))
m('x19-dialtimeout','C19',(TCP,'		contcp, err = net.DialTCP(c.network, nil, addr)\n		if err == nil {\n',"""		var raw net.Conn
		raw, err = net.DialTimeout(c.network, addr.String(), time.Second)
		if err == nil {
			contcp = raw.(*net.TCPConn)
"""))
m('x09-rbuff64k','C09',(LG,'const maxDatagram = 1 << 18','const maxDatagram = 1 << 16'))
m('x04-endtimeout','C04',(C,'	close(c.endAsked)\n	<-c.endCompleted\n','	close(c.endAsked)\n	select {\n	case <-c.endCompleted:\n	case <-time.After(10 * time.Second):\n	}\n'))
m('x08-tickless','C08',(D,'		ticker = time.Tick(d.FlushDelay)\n','		ticker = time.Tick(d.FlushDelay.Round(10 * time.Millisecond))\n'))
m('x08-coarse','C08',(D,'		ticker = time.Tick(d.FlushDelay)\n','		delay := d.FlushDelay\n		if delay < 10*time.Millisecond {\n			delay = 10 * time.Millisecond\n		}\n		ticker = time.Tick(delay)\n'))
m('x02-dedup','C02',(C,'	c.lock.Lock()\n	*c.queue = append(*c.queue, c.transport.Encode(msg))\n	c.lock.Unlock()\n',"""	frame := c.transport.Encode(msg)
	c.lock.Lock()
	if n := len(*c.queue); n == 0 || !bytes.Equal((*c.queue)[n-1], frame) {
		*c.queue = append(*c.queue, frame)
	}
	c.lock.Unlock()
"""),(C,'	"io"\n','	"bytes"\n	"io"\n'))
m('x12-strictnl','C12',(IM,'func parseMessage(data []byte) (MessageImmutable, error) {\n','func parseMessage(data []byte) (MessageImmutable, error) {\n	if bytes.IndexByte(data, 0) >= 0 {\n		return MessageImmutable{}, ErrPosNotFound\n	}\n'))
m('x12-crlf','C09',(T,"	if i := bytes.IndexByte(buffer, '\\n'); i >= 0 {\n		return buffer[0:i], buffer[i+1:], nil\n","	if i := bytes.IndexByte(buffer, '\\n'); i >= 0 {\n		if i > 0 && buffer[i-1] == '\\r' {\n			return buffer[0 : i-1], buffer[i+1:], nil\n		}\n		return buffer[0:i], buffer[i+1:], nil\n"))
m('x14-lazytext','C14',(IM,'	text = string(msg.buffer[msg.text:])\n','	b := msg.buffer[msg.text:]\n	for i, c := range b {\n		if c < 32 {\n			b[i] = 32\n		}\n	}\n	text = string(b)\n'))
m('x14-hostvalid','C14',('helpers.go','func validHost(d string) string {\n	return validatorGeneric([]byte(d), 255)\n','func validHost(d string) string {\n	return validatorGeneric([]byte(d), 255)\n'),(IM,'	host = validHost(string(msg.buffer[begin:end]))\n','	host = validatorGeneric(msg.buffer[begin:end], 255)\n'))
m('x16-sdsort','C16',(SL,'	return List(append([]StructuredData(listSD[:len(listSD):len(listSD)]), data...))\n','	sort.Slice(data, func(i, j int) bool { return data[i].SDID().String() < data[j].SDID().String() })\n	return List(append([]StructuredData(listSD[:len(listSD):len(listSD)]), data...))\n'),(SL,'	"sync"\n','	"sort"\n	"sync"\n'))
m('x22-lowercase','C22',(SL,'	key := s.String()\n','	key := strings.ToLower(s.String())\n'),(SL,'	"sync"\n','	"strings"\n	"sync"\n'))
m('x22-overwrite','C22',(SL,"""	for _, s := range sdids {
		key := s.String()
		if _, ok := registry.sdids[key]; !ok {
			registry.sdids[key] = s
		}
	}
""","""	for _, s := range sdids {
		registry.sdids[s.String()] = s
	}
"""))
m('x21-linger0','C21',(TCP,'	contcp.SetLinger(-1)\n','	contcp.SetLinger(0)\n'))
m('x21-linger1','C21',(LT,'	conn.SetLinger(-1)\n','	conn.SetLinger(0)\n'))
m('x21-wdeadline','C21',(TCP,'	contcp.SetLinger(-1)\n','	contcp.SetLinger(-1)\n	contcp.SetWriteDeadline(time.Now().Add(time.Hour))\n'))
m('x13-closewait','C13',(L,'	endDelay = time.Second\n','	endDelay = time.Hour\n'))
m('x13-listenerlater','C13',(L,'	close(r.end)\n	r.listener.Close()\n	time.AfterFunc(endDelay, func() {\n','	close(r.end)\n	time.AfterFunc(endDelay, func() {\n		r.listener.Close()\n'))
m('x26-remember','C26',(LO,'	guess := *c\n	return guess.localWriteCloser(guess.osGuessConnnector())','	return c.localWriteCloser(c.osGuessConnnector())'))
m('x06-doubleconnect','C06',(C,"""		c.output = output
	}

	//log""","""		c.output = output
		if len(*c.queue) == 0 {
			// nothing to write: don't keep the server busy
			c.output = nil
			return
		}
	}

	//log"""))
m('x07-shortwrite','C07',(LO,'	return c.c.Write(d)\n','	n, err = c.c.Write(d)\n	if err != nil && len(d) > 8192 {\n		n, err = c.c.Write(d[:8192])\n	}\n	return\n'))
m('x05-errblock','C05',(C,"""	select {
	case c.errChan <- err:
	default:
	}
}""","""	select {
	case c.errChan <- err:
	case <-c.endAsked:
	case <-time.After(time.Minute):
	}
}"""))
m('x18-delta-float','C18',(MSG,'	return bootTs.Add(time.Duration(nsec)*time.Nanosecond + time.Duration(sec)*time.Second)\n','	return bootTs.Add(time.Duration((float64(sec) + float64(nsec)/1e9) * 1e9))\n'))
m('x18-stamp-future','C18',(MSG,'	if now.Month() == 1 && ts.Month() == 12 {\n','	if ts.YearDay() > now.YearDay() {\n'))
m('x20-noretry','C20',(LU,'const staleTries = 5','const staleTries = 1'))
m('x20-removefirst','C20',(LU,'	conn, err := net.DialUnix(network, nil, &net.UnixAddr{Name: address, Net: network})\n','	conn, err := net.DialUnix("unix", nil, &net.UnixAddr{Name: address, Net: "unix"})\n'))

# fourth wave
GS='sdata/sd-generic.go'; EN='sdata/structured-data-encoder.go'; TQ='sdata/timequality/tq.go'
m('y01-encpool','C01',(GS,"""	e := &encodeState{}
	err := e.marshal(sd.Interface)
	if err != nil {
		return []byte{}, err
	}
	return e.Bytes(), nil
""","""	e := encPool.Get().(*encodeState)
	defer encPool.Put(e)
	e.Reset()
	err := e.marshal(sd.Interface)
	if err != nil {
		return []byte{}, err
	}
	return e.Bytes(), nil
"""),(GS,'type (\n	genericSDID','import "sync"\n\nvar encPool = sync.Pool{New: func() interface{} { return new(encodeState) }}\n\ntype (\n	genericSDID'))
m('y15-cachefields','C15',(EN,"""	n := t.NumField()
	fields := make([]reflect.StructField, n)
	for i := 0; i < n; i++ {
		fields[i] = t.Field(i)
	}
	return func""","""	n := t.NumField()
	fields, ok := fieldCache[t]
	if !ok {
		fields = make([]reflect.StructField, n)
		for i := 0; i < n; i++ {
			fields[i] = t.Field(i)
		}
		fieldCache[t] = fields
	}
	return func"""),(EN,'const (\n	caseMask','var fieldCache = map[reflect.Type][]reflect.StructField{}\n\nconst (\n	caseMask'))
m('y15-cachefields-race','C15',(EN,"""	n := t.NumField()
	fields := make([]reflect.StructField, n)
	for i := 0; i < n; i++ {
		fields[i] = t.Field(i)
	}
	return func""","""	n := t.NumField()
	fieldLock.Lock()
	fields, ok := fieldCache[t]
	fieldLock.Unlock()
	if !ok {
		fields = make([]reflect.StructField, n)
		fieldLock.Lock()
		fieldCache[t] = fields
		fieldLock.Unlock()
		for i := 0; i < n; i++ {
			fields[i] = t.Field(i)
		}
	}
	return func"""),(EN,'const (\n	caseMask','var fieldLock sync.Mutex\nvar fieldCache = map[reflect.Type][]reflect.StructField{}\n\nconst (\n	caseMask'),(EN,'	"sort"\n','	"sort"\n	"sync"\n'))
m('y15-cacheheader','C15',(EN,"""	if v.Type().Implements(sdpenType) {
		e.Write([]byte(v.Interface().(SDIDLight).String()))
	}
""","""	if v.Type().Implements(sdpenType) {
		id, ok := headers.Load(v.Type())
		if !ok {
			id, _ = headers.LoadOrStore(v.Type(), v.Interface().(SDIDLight).String())
		}
		e.Write([]byte(id.(string)))
	}
"""),(EN,'const (\n	caseMask','var headers sync.Map\n\nconst (\n	caseMask'),(EN,'	"sort"\n','	"sort"\n	"sync"\n'))
m('y01-retain','C01',(CH,'c.pid, c.msgid, string(d)))\n	return len(d), nil','c.pid, c.msgid, *(*string)(unsafe.Pointer(&d))))\n	return len(d), nil'),(CH,'	"time"\n','	"time"\n	"unsafe"\n'))
m('y16-sendraw','C16',(CH,"""	if len(sd) > 0 {
		msg = msg.StructuredData(sd...)
	}
""","""	if len(sd) > 0 {
		msg.sd = sdata.List(sd)
	}
"""))
m('y16-sdlazy','C16',(MSG,'msg.msgid, msg.sd.Add(data...), msg.message}','msg.msgid, addSD(msg.sd, data), msg.message}'),(MSG,'// Marshal5424 encode a message','func addSD(l sdata.List, data []sdata.StructuredData) sdata.List {\n	if len(l) == 0 {\n		return sdata.List(data)\n	}\n	return l.Add(data...)\n}\n\n// Marshal5424 encode a message'))
m('y15-testmode','C15',(SY,"""		facility: syslog.facility,
		hostname: syslog.hostname,
		pid:      syslog.pid,
""","""		facility: syslog.facility,
		hostname: syslog.hostname,
		pid:      strconv.Itoa(os.Getpid()),
"""))
m('y21-niltransport','C21',(D,"""	case "unix", "unixgram":
		if t == nil {
			t = TransportZeroEnded
		}
""","""	case "unix", "unixgram":
		if t == nil {
			t = TransportLFEnded
		}
"""))
m('y03-dedup','C03',(C,"""	select {
	case c.errChan <- err:
	default:
	}
}
""","""	if c.last != nil && c.last.Error() == err.Error() {
		return
	}
	select {
	case c.errChan <- err:
		c.last = err
	default:
	}
}
"""),(C,"""		errChan      chan error
""","""		errChan      chan error
		last         error
"""))
m('y11-dedup','C11',(L,"""func report(chanErr chan<- error, err error) {
""","""func report(chanErr chan<- error, err error) {
	lastLock.Lock()
	defer lastLock.Unlock()
	if last == err.Error() {
		return
	}
	last = err.Error()
"""),(L,'// report never blocks','var (\n	last     string\n	lastLock sync.Mutex\n)\n\n// report never blocks'))
m('y01-rejected','C01',(C,"""	if err != nil {
		return err
	}

	c.lock.Lock()
	*c.queue""","""	if err != nil && len(msg) == 0 {
		msg = []byte(m.message)
	}

	c.lock.Lock()
	*c.queue"""))
m('y16-tqshared','C16',(TQ,"""	ret := append(make([]byte, 0, length), []byte("[timeQuality")...)
""","""	ret := append(tqBuf[:0], []byte("[timeQuality")...)
"""),(TQ,'type (\n	tqdef','var tqBuf [128]byte\n\ntype (\n	tqdef'))
m('y01-marshalcache','C01',(SL,"""		t, err := sd.Marshal5424()
		if err != nil {
			return nil, err
		}
		retSize""","""		t, err := sd.Marshal5424()
		if err != nil {
			return ret, err
		}
		retSize"""),(SL,'func (listSD List) Marshal5424() ([]byte, error) {','func (listSD List) Marshal5424() (ret []byte, err error) {'),(SL,'	ret := make([]byte, 0, retSize)','	ret = make([]byte, 0, retSize)'))

# fifth wave
m('z11-gramstuck','C11',(LG,"""		r.receiver.idle <- struct{}{}

		select {""","""		if r.receiver.again {
			r.receiver.again = false
			r.receiver.idle <- struct{}{}
		}

		select {"""))
m('z11-gramfatal','C11',(LG,"""		if err != nil {
			return 0, err
		}
		if s == len""","""		if err != nil {
			if oe, ok := err.(*net.OpError); ok && !oe.Temporary() {
				r.receiver.endOnce.Do(func() { close(r.receiver.end) })
			}
			return 0, err
		}
		if s == len"""))
m('z11-grameof','C11',(LG,"""		if err != nil {
			return 0, err
		}
		if s == len""","""		if err != nil {
			return 0, io.EOF
		}
		if s == len"""),(LG,'	"errors"\n','	"errors"\n	"io"\n'))
m('z11-acceptclose','C11',(LT,"""	conn, err := r.listener.AcceptTCP()
	if err != nil {
		return nil, err
	}
""","""	conn, err := r.listener.AcceptTCP()
	if err != nil {
		if ne, ok := err.(net.Error); ok && !ne.Temporary() {
			r.listener.Close()
		}
		return nil, err
	}
"""))
m('z11-unixreset','C11',(L,"""				if !eof {
					report(chanErr, err)
				}""","""				if _, net := err.(*net.OpError); !eof && (!net || lenRead > 0 || done == 0) {
					report(chanErr, err)
				}"""))
m('z11-retry','C11',(LT,"""	return conn, nil
}

func (r *tcpReceiver) Close""","""	return &retryConn{conn}, nil
}

type retryConn struct{ *net.TCPConn }

func (c *retryConn) Read(p []byte) (n int, err error) {
	for i := 0; i < 3; i++ {
		n, err = c.TCPConn.Read(p)
		if ne, ok := err.(net.Error); !ok || !ne.Temporary() {
			break
		}
	}
	return
}

func (r *tcpReceiver) Close"""))
m('z11-acceptloop','C11',(LU,"""	conn, err := r.listener.AcceptUnix()
	if err != nil {
		return nil, err
	}
""","""	conn, err := r.listener.AcceptUnix()
	for i := 0; i < 2 && err != nil; i++ {
		conn, err = r.listener.AcceptUnix()
	}
	if err != nil {
		return nil, err
	}
"""))
m('z11-gramflush','C11',(LG,"""	fc := &fakeConn{
		receiver: r,
		conn:     r.listener,
	}
""","""	fc := &fakeConn{
		receiver: r,
		conn:     r.listener,
	}
	if r.failed {
		// whatever is queued may be damaged
		r.failed = false
		r.listener.SetReadDeadline(time.Now())
		r.listener.ReadFrom(fc.rbuff[:])
		r.listener.SetReadDeadline(time.Time{})
	}
"""),(LG,"		again    bool\n","		again    bool\n		failed   bool\n"),(LG,"""		if err != nil {
			return 0, err
		}
		if s == len""","""		if err != nil {
			r.receiver.failed = true
			return 0, err
		}
		if s == len"""))
m('z11-drainfail','C11',(L,"""			if !valid && !isDatagrams {
				return
			}""","""			if !valid && !isDatagrams {
				return
			}
			if err != nil && !eof && isDatagrams {
				return
			}"""))

LT='listener-tcp.go'
m('za1-tcpnil','C20',(LT,"""	laddr, err := net.ResolveTCPAddr(network, address)
	if err != nil {
		return nil, err""","""	laddr, err := net.ResolveTCPAddr(network, address)
	if err != nil {
		return nil, nil"""))
m('za2-tcpreuse','C20',(LT,"""	if err != nil {
		return nil, err
	}

	return r, nil""","""	if err != nil {
		laddr.Port = 0
		r.listener, err = net.ListenTCP(network, laddr)
	}

	return r, err"""))
m('za3-tcpfamily','C20',(LT,'net.ListenTCP(network, laddr)','net.ListenTCP("tcp4", laddr)'))
m('za4-tcpany','C20',(LT,'net.ListenTCP(network, laddr)','net.ListenTCP(network, &net.TCPAddr{Port: laddr.Port})'))
m('za5-closeorder','C04',('connector.go',"""		close(c.errChan)
		close(c.endCompleted)""","""		close(c.endCompleted)
		close(c.errChan)"""))
m('za6-localdefault','C26',('dialer.go',"""	case "local":
		if t == nil {
			t = TransportZeroEnded
		}""","""	case "local":
		if t == nil {
			t = TransportLFEnded
		}"""))

CT='connector-tcp.go'
m('zb1-stdioclose','C27',('connector-fd.go',"""func (stdio) Close() error {
	return nil""","""func (f stdio) Close() error {
	return f.File.Close()"""))
m('zb2-tickshared','C27',('dialer.go',"		ticker = time.Tick(d.FlushDelay)\n","""		tickers.Lock()
		if tickers.m[d.FlushDelay] == nil {
			tickers.m[d.FlushDelay] = time.Tick(d.FlushDelay)
		}
		ticker = tickers.m[d.FlushDelay]
		tickers.Unlock()
"""),('dialer.go','''import (
	"errors"
''','''import (
	"errors"
	"sync"
'''),('dialer.go',"// Dial opens a connection to the syslog daemon\n// network can be \"stdio\", \"unix\", \"unixgram\", \"tcp\", \"tcp4\", \"tcp6\"\n// used","""var tickers = struct {
	sync.Mutex
	m map[time.Duration]<-chan time.Time
}{m: map[time.Duration]<-chan time.Time{}}

// Dial opens a connection to the syslog daemon
// used"""))
m('zb3-lookuplock','C27',(CT,"""	rawips, err := resolver.LookupIPAddr(ctx, addr)
""","""	lookups.Lock()
	rawips, err := resolver.LookupIPAddr(ctx, addr)
	lookups.Unlock()
"""),(CT,"var resolver =","var lookups sync.Mutex\n\nvar resolver ="),(CT,'	"strconv"\n','	"strconv"\n	"sync"\n'))
m('zb4-dialslots','C27',(CT,"		contcp, err = net.DialTCP(c.network, nil, addr)\n","""		dialing <- struct{}{}
		contcp, err = net.DialTCP(c.network, nil, addr)
		<-dialing
"""),(CT,"var resolver =","// not too many at once\nvar dialing = make(chan struct{}, 2)\n\nvar resolver ="))
m('zb5-conncache','C27',(CT,"	conn = contcp\n","""	conn = contcp
	last.Lock()
	last.c[c.network+c.address] = contcp
	last.Unlock()
"""),(CT,"	port := 514\n","""	last.Lock()
	old := last.c[c.network+c.address]
	delete(last.c, c.network+c.address)
	last.Unlock()
	if old != nil {
		return old, nil
	}
	port := 514
"""),(CT,"var resolver =","var last = struct {\n	sync.Mutex\n	c map[string]*net.TCPConn\n}{c: map[string]*net.TCPConn{}}\n\nvar resolver ="),(CT,'	"strconv"\n','	"strconv"\n	"sync"\n'))
m('zb6-hostcache','C27',(CT,"	if len(ips) == 0 {\n","""	known.Lock()
	if known.m[c.address[:4]] != nil && len(ips) == 1 {
		ips = known.m[c.address[:4]]
	}
	known.m[c.address[:4]] = ips
	known.Unlock()
	if len(ips) == 0 {
"""),(CT,"var resolver =","var known = struct {\n	sync.Mutex\n	m map[string][]net.IPAddr\n}{m: map[string][]net.IPAddr{}}\n\nvar resolver ="),(CT,'	"strconv"\n','	"strconv"\n	"sync"\n'))
m('zb7-guessglobal','C27',('connector-local.go',"	guess := *c\n","	guess := *c\n	if guess.address == \"\" {\n		guess.address = lastGuess\n	}\n	defer func() { lastGuess = guess.address }()\n"),('connector-local.go',"// LocalConnector is","var lastGuess string\n\n// LocalConnector is"))
m('zb8-connlock','C27',('connector.go',"c.connector.Connect()","connectOne(c.connector)"),('connector.go',"func (c *Sender) runQueue","var connectLock = make(chan struct{}, 1)\n\nfunc connectOne(k Connector) (WriteCloser, error) {\n	connectLock <- struct{}{}\n	defer func() { <-connectLock }()\n	return k.Connect()\n}\n\nfunc (c *Sender) runQueue"))

CLU='connector-local_unix.go'
m('zc1-gramclose','C06',('connector-local.go',"""func (c unixgram) Close() error {
	return c.c.Close()""","""func (c unixgram) Close() error {
	return c.c.CloseWrite()"""))
m('zc2-last','C06',(CT,"""		if err == nil {
			break
		}
	}
	if err != nil {""","""		if err == nil && ip.IP.To4() != nil {
			break
		}
		if err == nil {
			spare = contcp
		}
	}
	if err != nil && spare != nil {
		contcp, err = spare, nil
	}
	if err != nil {"""),(CT,"	var contcp *net.TCPConn\n","	var contcp, spare *net.TCPConn\n"))
m('zc3-probe','C06',(CLU,"""			conn, err := net.DialUnix(network, nil, uAddr)
			if err == nil {
				c.network = network
				c.address = path
				return conn, nil""","""			probe, err := net.DialUnix(network, nil, uAddr)
			if err != nil {
				continue
			}
			conn, err := net.DialUnix(network, nil, uAddr)
			if err == nil {
				if network == "unix" {
					probe.Close()
				}
				c.network = network
				c.address = path
				return conn, nil"""))
m('zc4-swallow','C02',('connector-local.go',"""	return c.c.Write(d)
""","""	n, err = c.c.Write(d)
	if e, ok := err.(net.Error); ok && e.Temporary() {
		err = nil
	}
	return
"""))
m('zc5-retryonce','C06',('connector-local.go',"""	return c.c.Write(d)
""","""	for i := 0; i < 2; i++ {
		if n, err = c.c.Write(d); err == nil || i == 0 && n > 0 {
			return
		}
	}
	return
"""))
m('zc6-buffered','C02',(CT,"	conn = contcp\n","	conn = &buffered{bufio.NewWriterSize(contcp, 4096), contcp}\n"),(CT,'import (\n','import (\n	"bufio"\n'),(CT,"var resolver =","""type buffered struct {
	*bufio.Writer
	c *net.TCPConn
}

func (b *buffered) Write(d []byte) (int, error) {
	n, err := b.Writer.Write(d)
	if err == nil {
		err = b.Flush()
	}
	return n, err
}

func (b *buffered) Close() error { return b.c.Close() }

var resolver ="""))

# wave zd
for n in (2000, 10000, 50000):
    m('zd01-queue%d'%n,'C03',(C,"	*c.queue = append(*c.queue, c.transport.Encode(msg))\n","	*c.queue = append(*c.queue, c.transport.Encode(msg))\n	if len(*c.queue) > %d && c.partial == nil {\n		*c.queue = (*c.queue)[1:]\n	}\n"%n))
for n in (3, 6, 12):
    m('zd02-poison%d'%n,'C02',(C,"	if c.partial != nil {\n		(*c.queue)[0] = c.partial\n		c.partial = nil\n	}\n}","""	if c.partial != nil {
		(*c.queue)[0] = c.partial
		c.partial = nil
		if c.tries++; c.tries >= %d {
			*c.queue = (*c.queue)[1:]
		}
	}
}"""%n),(C,"		partial      []byte","		tries        int\n		partial      []byte"),(C,"		case nil:\n","		case nil:\n			c.tries = 0\n"))
for n,t in (('1h','time.Hour'),('24h','24 * time.Hour'),('30d','30 * 24 * time.Hour')):
    m('zd03-stale'+n,'C03',(C,"			c.report(err)\n			return\n		}\n		c.output = output\n","""			c.report(err)
			c.lock.Lock()
			if c.since.IsZero() {
				c.since = time.Now()
			}
			if time.Since(c.since) > %s {
				*c.queue = (*c.queue)[len(*c.queue):]
				c.since = time.Now()
			}
			c.lock.Unlock()
			return
		}
		c.since = time.Time{}
		c.output = output
"""%t),(C,"		partial      []byte","		since        time.Time\n		partial      []byte"))
m('zd04-enobufspartial','C07',(C,"sysErr.Err == syscall.ENOBUFS {\n				return","sysErr.Err == syscall.ENOBUFS {\n				c.partial = nil\n				return"))
m('zd04b-enobufspartial','C02',(C,"sysErr.Err == syscall.ENOBUFS {\n				return","sysErr.Err == syscall.ENOBUFS {\n				c.partial = nil\n				return"))
m('zd05-whole-again','C02',(C,"			if len((*c.queue)[0]) < len(frame) {\n				c.partial = frame\n			}","""			if len((*c.queue)[0]) < len(frame) {
				c.partial = frame
			} else if err != nil && len(frames) > len(*c.queue) && len(frame) == len(frames[len(frames)-len(*c.queue)-1]) {
				*c.queue = append([][]byte{frames[len(frames)-len(*c.queue)-1]}, *c.queue...)
			}"""))
for n in (64<<10, 256<<10, 1<<20):
    m('zd06-bytes%dk'%(n>>10),'C08',(C,"	for len(*c.queue) > 0 {\n		frames := append([][]byte(nil), *c.queue...)\n","""	for len(*c.queue) > 0 {
		frames := append([][]byte(nil), *c.queue...)
		if c.partial == nil {
			n, k := 0, 0
			for k = range frames {
				if n += len(frames[k]); n > %d {
					break
				}
			}
			if n > %d && k > 0 {
				later := append([][]byte(nil), (*c.queue)[k:]...)
				frames = frames[:k]
				*c.queue = (*c.queue)[:k:k]
				defer func() { *c.queue = append(*c.queue, later...) }()
			}
		}
"""%(n,n)))
for n in (18, 20, 22, 24):
    m('zd07-max%d'%n,'C09',(L,"		if len(buffer)-done < 500 {\n","		if done > 1<<%d {\n			report(chanErr, ErrTransportIncomplete)\n			return\n		}\n		if len(buffer)-done < 500 {\n"%n))
for n in (32, 64, 128, 256):
    m('zd08-conns%d'%n,'C10',(L,"			r.workers.Add(1)\n			go r.tokenize(conn, chanErr)\n			continue","			r.workers.Add(1)\n			slots <- struct{}{}\n			go func() {\n				defer func() { <-slots }()\n				r.tokenize(conn, chanErr)\n			}()\n			continue"),(L,"	for {\n		conn, err := r.listener.Accept()","	slots := make(chan struct{}, %d)\n	for {\n		conn, err := r.listener.Accept()"%n))
for n,t in (('10s','10 * time.Second'),('10m','10 * time.Minute'),('24h','24 * time.Hour')):
    m('zd09-slowdrop'+n,'C10',(L,"		return true\n	case <-r.closing:","		return true\n	case <-time.After(%s):\n		return true\n	case <-r.closing:"%t))
m('zd10-asyncclose','C06',(C,"	c.report(err)\n	c.output.Close()\n	c.output = nil","	c.report(err)\n	old := c.output\n	time.AfterFunc(time.Second, func() { old.Close() })\n	c.output = nil"))
m('zd11-utf8text','C12',(IM,"	text = string(msg.buffer[msg.text:])","	text = string([]rune(string(msg.buffer[msg.text:])))"))
m('zd12-utf8send','C01',(MSG,"		ret = append(ret, []byte(msg.message)...)","		ret = append(ret, []byte(string([]rune(msg.message)))...)"))
m('zd12b-utf8send','C21',(MSG,"		ret = append(ret, []byte(msg.message)...)","		ret = append(ret, []byte(string([]rune(msg.message)))...)"))
m('zd13-bom','C12',(IM,"	text = string(msg.buffer[msg.text:])","	text = strings.TrimPrefix(string(msg.buffer[msg.text:]), \"\\xef\\xbb\\xbf\")"),(IM,'	"io"\n','	"io"\n	"strings"\n'))
m('zd14-gram128k','C09',(LG,"const maxDatagram = 1 << 18","const maxDatagram = 1 << 17"))
m('zd14b-gram128k','C10',(LG,"const maxDatagram = 1 << 18","const maxDatagram = 1 << 17"))
for n in (20,100,1000):
    m('zd15-endtries%d'%n,'C04',(C,"		for len(*c.queue) > 0 {\n			c.flushQueue()\n		}","		for tries := 0; len(*c.queue) > 0 && tries < %d; tries++ {\n			c.flushQueue()\n		}"%n))
for n in (8, 16, 64, 256):
    m('zd16-reports%d'%n,'C03',(C,"	case c.errChan <- err:\n	default:","	case c.errChan <- err:\n		c.told++\n	default:"),(C,"func (c *Sender) report(err error) {\n","func (c *Sender) report(err error) {\n	if c.told >= %d {\n		return\n	}\n"%n),(C,"		partial      []byte","		told         int\n		partial      []byte"))
for n in (3, 10, 30):
    m('zd17-reconnects%d'%n,'C02',(C,"		c.output = output\n","		c.output = output\n		if c.conns++; c.conns > %d {\n			c.partial = nil\n			time.Sleep(time.Duration(c.conns) * time.Minute)\n		}\n"%n),(C,"		partial      []byte","		conns        int\n		partial      []byte"))
    m('zd18-restarts%d'%n,'C21',(C,"		c.output = output\n","		c.output = output\n		if c.conns++; c.conns > %d && len(*c.queue) > 0 {\n			*c.queue = (*c.queue)[1:]\n		}\n"%n),(C,"		partial      []byte","		conns        int\n		partial      []byte"))
m('zd19-endmany','C13',(L,"	case <-r.closing:\n		return false","	case <-r.end:\n		return false"))
m('zd20-emptytext','C01',(MSG,'	switch msg.message {\n	case "":','	switch strings.TrimSpace(msg.message) {\n	case "":'))
m('zd21-nilsd','C15',(CH,"	if len(sd) > 0 {\n		msg","	if len(sd) > 0 && sd[0] != nil && d != \"\" {\n		msg"))
m('zd22-pid','C21',(IM,"	procid = validProcid(string(","	procid = validMsgid(string("))
m('zd23-app','C12',(IM,"	app = validApp(string(","	app = validMsgid(string("))
m('zd24-len0','C12',(T,"	if uint64(len(buffer)-start) < lenMsg {","	if lenMsg == 0 {\n		return nil, nil, ErrTransportInvHeader\n	}\n	if uint64(len(buffer)-start) < lenMsg {"))
m('zd25-connectonce','C19',("connector-tcp.go","		if err == nil {\n			break\n		}\n	}\n","		if err == nil {\n			break\n		}\n		if e, ok := err.(net.Error); ok && e.Timeout() {\n			break\n		}\n	}\n"))
m('zd26-lookuponce','C19',("connector-tcp.go","	if err != nil {\n		return nil, err\n	}\n\n	ips :=","	if err != nil {\n		if e, ok := err.(*net.DNSError); ok && e.IsNotFound {\n			c.address = \"\"\n		}\n		return nil, err\n	}\n\n	ips :="))

# wave ze
L='listener.go'
C='connector.go'
MI='message-immutable.go'
TOK="func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {\n	defer r.workers.Done()\n"
STR="		transport Transport\n"
for n in (16,64,256,1000):
    m('ze01-slotleak%d'%n,'C11',(L,"			r.workers.Add(1)\n","			slots <- struct{}{}\n			r.workers.Add(1)\n"),
      (L,"		if err != nil {\n			select {\n			case <-r.closing:\n			default:\n				if !eof {\n","		if eof || err != nil && len(data) == 0 && false {\n			<-slots\n		}\n		if err != nil {\n			select {\n			case <-r.closing:\n			default:\n				if !eof {\n"),
      (L,"func (r *Receiver) runQueue(","var slots = make(chan struct{}, %d)\n\nfunc (r *Receiver) runQueue("%n))
for n in (4,16,64,256):
    m('ze02-endclose%d'%n,'C13',(L,"		case <-r.closing:\n		}\n		conn.Close()","		case <-r.closing:\n			if r.nClosed >= %d {\n				return\n			}\n			r.nClosed++\n		}\n		conn.Close()"%n),(L,"		transport Transport\n","		nClosed   int\n		transport Transport\n"))
for n in (128,512,1024,4096):
    m('ze03-arena%dk'%n,'C14',(L,"			buffer = make([]byte, readBuffer+2*done)\n			copy(buffer, old)","			if arena == nil || len(arena)-pos < readBuffer+2*done {\n				if arena == nil || readBuffer+2*done > len(arena) {\n					arena = make([]byte, %d<<10+2*done)\n				}\n				pos = 0\n			}\n			buffer = arena[pos : pos+readBuffer+2*done]\n			pos += readBuffer + 2*done\n			copy(buffer, old)"%n),
      (L,"	done := 0\n	buffer :=","	var arena []byte\n	pos := 0\n	done := 0\n	buffer :="))
m('ze04-dedupe','C10',(L,"		msg, err := parseMessage(frame)\n","		msg, err := parseMessage(frame)\n		if s := string(frame); err == nil {\n			if s == lastFrame {\n				data = rest\n				continue\n			}\n			lastFrame = s\n		}\n"),(L,"func (r *Receiver) runQueue(","var lastFrame string\n\nfunc (r *Receiver) runQueue("))
m('ze05-dedupe','C09',(L,"		msg, err := parseMessage(frame)\n","		msg, err := parseMessage(frame)\n		if s := string(frame); err == nil {\n			if s == lastFrame {\n				data = rest\n				continue\n			}\n			lastFrame = s\n		}\n"),(L,"func (r *Receiver) runQueue(","var lastFrame string\n\nfunc (r *Receiver) runQueue("))
m('ze06-dedupe','C21',(L,"		msg, err := parseMessage(frame)\n","		msg, err := parseMessage(frame)\n		if s := string(frame); err == nil {\n			if s == lastFrame {\n				data = rest\n				continue\n			}\n			lastFrame = s\n		}\n"),(L,"func (r *Receiver) runQueue(","var lastFrame string\n\nfunc (r *Receiver) runQueue("))
m('ze06b-dedupe','C12',(L,"		msg, err := parseMessage(frame)\n","		msg, err := parseMessage(frame)\n		if s := string(frame); err == nil {\n			if s == lastFrame {\n				data = rest\n				continue\n			}\n			lastFrame = s\n		}\n"),(L,"func (r *Receiver) runQueue(","var lastFrame string\n\nfunc (r *Receiver) runQueue("))
for n in (5,20,100,1000):
    m('ze07-malformed%d'%n,'C12',(L,"		msg, err := parseMessage(frame)\n","		msg, err := parseMessage(frame)\n		if err != nil {\n			if *bad++; *bad > %d {\n				r.queue(MessageImmutable{}, err)\n				return nil, false\n			}\n		}\n"%n),
     (L,"func (r *Receiver) deliver(data []byte, atEOF bool) (","func (r *Receiver) deliver(data []byte, atEOF bool, bad *int) ("),(L,"r.deliver(data, last)","r.deliver(data, last, &bad)"),(L,"	done := 0\n","	bad := 0\n	done := 0\n"))
for n in (20,200,2000):
    m('ze08-accepts%d'%n,'C11',(L,"		report(chanErr, err)\n		select {","		report(chanErr, err)\n		if nerr++; nerr > %d {\n			return\n		}\n		select {"%n),(L,"func (r *Receiver) runQueue(chanErr chan<- error) {\n","func (r *Receiver) runQueue(chanErr chan<- error) {\n	nerr := 0\n"))
m('ze09-backoff','C11',(L,"		case <-time.After(acceptDelay):","		case <-time.After(delay):\n			delay *= 2"),(L,"func (r *Receiver) runQueue(chanErr chan<- error) {\n","func (r *Receiver) runQueue(chanErr chan<- error) {\n	delay := time.Duration(acceptDelay)\n"))
for n,t in (('1m','time.Minute'),('1h','time.Hour'),('24h','24 * time.Hour')):
    m('ze10-partial'+n,'C09',(L,"		lenRead, err := conn.Read(buffer[done:])\n","		since := time.Now()\n		lenRead, err := conn.Read(buffer[done:])\n		if time.Since(since) > %s && done > 0 {\n			copy(buffer, buffer[done:done+lenRead])\n			done = 0\n		}\n"%t))
    m('ze10b-partial'+n,'C10',(L,"		lenRead, err := conn.Read(buffer[done:])\n","		since := time.Now()\n		lenRead, err := conn.Read(buffer[done:])\n		if time.Since(since) > %s && done > 0 {\n			copy(buffer, buffer[done:done+lenRead])\n			done = 0\n		}\n"%t))
for n,t in (('1m','time.Minute'),('1h','time.Hour'),('24h','24 * time.Hour')):
    m('ze11-idleclose'+n,'C10',(L,"		lenRead, err := conn.Read(buffer[done:])\n","		idle := time.AfterFunc(%s, func() { conn.Close() })\n		lenRead, err := conn.Read(buffer[done:])\n		idle.Stop()\n"%t))
m('ze12-nobufsbackoff','C07',(C,"sysErr.Err == syscall.ENOBUFS {\n				return","sysErr.Err == syscall.ENOBUFS {\n				c.wait = 2*c.wait + 1\n				c.skip = c.wait\n				return"),(C,"	if c.output == nil {\n		// what","	if c.skip > 0 {\n		c.skip--\n		return\n	}\n	if c.output == nil {\n		// what"),(C,"		partial      []byte","		skip, wait   int\n		partial      []byte"))
m('ze13-backoff','C03',(C,"			c.report(err)\n			return\n		}\n		c.output = output\n","			c.report(err)\n			c.wait = 2*c.wait + 1\n			c.skip = c.wait\n			return\n		}\n		c.wait = 0\n		c.output = output\n"),(C,"	if c.output == nil {\n		// what","	if c.skip > 0 {\n		c.skip--\n		return\n	}\n	if c.output == nil {\n		// what"),(C,"		partial      []byte","		skip, wait   int\n		partial      []byte"))
for n in (2,3,4,8):
    m('ze13-backoffcap%d'%n,'C03',(C,"			c.report(err)\n			return\n		}\n		c.output = output\n","			c.report(err)\n			if c.wait < %d {\n				c.wait++\n			}\n			c.skip = c.wait\n			return\n		}\n		c.wait = 0\n		c.output = output\n"%n),(C,"	if c.output == nil {\n		// what","	if c.skip > 0 {\n		c.skip--\n		return\n	}\n	if c.output == nil {\n		// what"),(C,"		partial      []byte","		skip, wait   int\n		partial      []byte"))
m('ze14-sdslice','C16',('message.go',"msg.sd.Add(data...), msg.message}","append(msg.sd, data...), msg.message}"))
for n,t in (('10us','10*time.Microsecond'),('100us','100*time.Microsecond')):
    m('ze15-coarse'+n,'C17',('channel.go',"func (c *msgChannel) Write(d []byte) (int, error) {\n	c.output.Send(forgeMessage(c.priority, Now(),","var coarse time.Time\nvar coarseLock sync.Mutex\n\nfunc coarseNow() time.Time {\n	coarseLock.Lock()\n	defer coarseLock.Unlock()\n	if d := time.Since(coarse); d < 0 || d > %s {\n		coarse = Now()\n	}\n	return coarse\n}\n\nfunc (c *msgChannel) Write(d []byte) (int, error) {\n	c.output.Send(forgeMessage(c.priority, coarseNow(),"%t),('channel.go','import (\n','import (\n	"sync"\n'))
for n in (1000,5000,20000):
    m('ze16-pending%d'%n,'C21',(C,"	*c.queue = append(*c.queue, c.transport.Encode(msg))\n","	if len(*c.queue) < %d {\n		*c.queue = append(*c.queue, c.transport.Encode(msg))\n	}\n"%n))

def sh(cmd, cwd=None, env=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout

def main():
    args = sys.argv[1:]
    tests = '-t' in args
    args = [a for a in args if a != '-t']
    env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GO111MODULE='on', GOTOOLCHAIN='local', GOWORK='off', GOPROXY='off', GOFLAGS='-mod=mod', SIM_BUDGET=os.environ.get('SIM_BUDGET','120s'))
    for id, prop, edits in M:
        if args and not any(id.startswith(a) for a in args): continue
        w = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
        try:
            shutil.copytree('/repo', w+'/repo')
            ok = True
            for f, old, new in edits:
                s = open(w+'/repo/'+f).read()
                if old not in s:
                    print(id, prop, 'EDIT DOES NOT APPLY', repr(old[:60])); ok = False; break
                open(w+'/repo/'+f, 'w').write(s.replace(old, new, 1))
            if not ok: continue
            rc, out = sh('go build ./...', w+'/repo', env)
            if rc: print(id, 'DOES NOT BUILD', out[:300]); continue
            t = ''
            if tests:
                s = open('/opt/vp/test.sh').read().replace('/repo', w+'/repo'); open(w+'/test.sh', 'w').write(s)
                sh('bash %s/test.sh %s/t.json' % (w, w), t=300)
                b = json.load(open('/opt/vp/BASELINE.json')); r = json.load(open(w+'/t.json'))
                want = b.get('passed') or b.get('tests') or b.get('stable')
                miss = [x for x in want if x not in r['passed']]
                t = ' tests=' + ('pass' if not miss else 'FAIL')
            e = dict(env, SIM_REPO=w+'/repo')
            rc, out = sh(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'check.sh') + ' %s quick' % prop, env=e)
            v = [l for l in out.splitlines() if l.startswith(prop+':')]
            q = re.findall(r'quick: (\d+) runs', out)
            print('%-20s %s rc=%d%s runs=%s %s' % (id, 'CAUGHT' if rc == 1 else 'MISSED' if rc == 0 else 'NOVERDICT', rc, t, q[0] if q else '?', (v[0] if v else out[-200:] if rc not in (0,1) else '')[:150]), flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)
main()

package sttp

import (
	"time"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/transport"
)

// vhMetadataXml: a metadata document with these columns and records of table MeasurementDetail.
func vhMetadataXml(columns []string, records string) []byte {
	fields := ""
	for _, c := range columns {
		switch c {
		case "SignalID":
			fields += "<xs:element name='SignalID' ext:DataType='System.Guid' type='xs:string'/>"
		case "UpdatedOn":
			fields += "<xs:element name='UpdatedOn' type='xs:dateTime'/>"
		default:
			fields += "<xs:element name='" + c + "' type='xs:string'/>"
		}
	}
	return []byte("<D><xs:schema id='D' xmlns:xs='http://www.w3.org/2001/XMLSchema' xmlns:ext='urn:schemas-microsoft-com:xml-msdata'>" +
		"<xs:element name='D'><xs:complexType><xs:choice><xs:element name='MeasurementDetail'><xs:complexType><xs:sequence>" +
		fields + "</xs:sequence></xs:complexType></xs:element></xs:choice></xs:complexType></xs:element></xs:schema>" + records + "</D>")
}

// Received metadata fills the records of exactly the signals it names, with exactly the fields it has.
//verif:unwind=100000 maxconc=100000 preempt=0 clock=fixed parts=8
func VH_S09_metadata() {
	p := vndPart()
	peer := transport.NewVhPeer()
	transport.VhNetwork(true, peer)
	s := vhNewSession(&peer)
	s.cfg.AutoRequestMetadata = false
	s.cfg.AutoSubscribe = false
	var got []*data.DataSet
	s.sb.SetMetadataReceiver(func(ds *data.DataSet) { got = append(got, ds) })
	vndAssert(s.sb.Dial("publisher:7165", s.cfg) == nil, "connected")
	vndQuiesce()

	id := func(i int) (string, guid.Guid) {
		return "12345678-9abc-def0-1234-56789abcde0" + []string{"1", "2", "3"}[i],
			guid.Guid{0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf0, 0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, byte(i + 1)}
	}
	ch := func(name string) string { return string([]byte{'a' + vndU8(name)&15}) }
	all := []string{"ID", "PointTag", "SignalReference", "SignalAcronym", "Description", "UpdatedOn"}
	columns := []string{"SignalID"}
	if p == 7 {
		columns = append(columns, all...)
	} else if p == 6 {
		columns = append([]string{}, all...)
	} else {
		columns = append(columns, all[p])
	}
	has := func(c string) bool {
		for _, x := range columns {
			if x == c {
				return true
			}
		}
		return false
	}
	set := func(i int, k string) *transport.MeasurementMetadata {
		text, g := id(i)
		m := s.sb.dataSubscriber().LookupMetadata(g)
		old := *m
		w := old
		record := "<MeasurementDetail>"
		if has("SignalID") {
			record += "<SignalID>" + text + "</SignalID>"
		}
		if has("ID") {
			c := ch("source" + k)
			d := vndU8("digit"+k) & 7
			record += "<ID>" + c + ":1" + string([]byte{'0' + d}) + "</ID>"
			w.Source, w.ID = c, 10+uint64(d)
		}
		if has("PointTag") {
			w.Tag = "t" + ch("tag"+k)
			record += "<PointTag>" + w.Tag + "</PointTag>"
		}
		if has("SignalReference") {
			w.SignalReference = "r" + ch("reference"+k)
			record += "<SignalReference>" + w.SignalReference + "</SignalReference>"
		}
		if has("SignalAcronym") {
			w.SignalType = "y" + ch("type"+k)
			record += "<SignalAcronym>" + w.SignalType + "</SignalAcronym>"
		}
		if has("Description") {
			w.Description = "d" + ch("description"+k) + "&"
			record += "<Description>d" + w.Description[1:2] + "&amp;</Description>"
		}
		if has("UpdatedOn") {
			w.UpdatedOn = time.Date(2020, 2, 29, 1, 2, 3+i, 0, time.UTC)
			record += "<UpdatedOn>2020-02-29T01:02:0" + string([]byte{'3' + byte(i)}) + "+00:00</UpdatedOn>"
		}
		record += "</MeasurementDetail>"
		none := "<MeasurementDetail><PointTag>none</PointTag></MeasurementDetail>"
		text3, g3 := id(2)
		last := "t" + ch("last"+k)
		records := none + record + none + "<MeasurementDetail><SignalID>" + text3 + "</SignalID><PointTag>" + last + "</PointTag></MeasurementDetail>"
		peer.Send(0x80, 1, vhMetadataXml(columns, records))
		vndQuiesce()
		third := s.sb.dataSubscriber().LookupMetadata(g3)
		if has("SignalID") && has("PointTag") {
			vndAssert(third.Tag == last, "every record is read")
		} else {
			vndAssert(third.Tag == "", "only fields that are received")
		}
		if !has("SignalID") {
			w = old
		}
		vndAssert(m == s.sb.dataSubscriber().LookupMetadata(g), "the record of the signal")
		vndAssert(m.SignalID == g, "the signal of the record")
		vndAssert(m.Source == w.Source && m.ID == w.ID, "source and ID as received")
		vndAssert(m.Tag == w.Tag, "tag as received")
		vndAssert(m.SignalReference == w.SignalReference, "reference as received")
		vndAssert(m.SignalType == w.SignalType, "type as received")
		vndAssert(m.Description == w.Description, "description as received")
		vndAssert(m.UpdatedOn.Equal(w.UpdatedOn), "date as received")
		vndAssert(m.Multiplier == 1 && m.Adder == 0, "other fields as they were")
		return m
	}
	first := set(0, "0")
	was := *first
	second := 1 - vndChoose("again", 2)
	m := set(second, "1")
	vndAssert((m == first) == (second == 0), "one record for each signal")
	if second != 0 {
		vndAssert(first.Source == was.Source && first.ID == was.ID && first.Tag == was.Tag && first.SignalReference == was.SignalReference &&
			first.SignalType == was.SignalType && first.Description == was.Description && first.UpdatedOn.Equal(was.UpdatedOn), "other signals as they were")
	}
	vndAssert(len(got) == 2 && got[0] != got[1] && got[1].Table("MeasurementDetail") != nil && got[1].Table("MeasurementDetail").RowCount() == 4, "the metadata is passed on")
	if p == 6 {
		vndAssert(len(s.errors) == 2, "metadata without signal IDs is reported")
	} else {
		vndAssert(len(s.errors) == 0, "nothing to report")
	}
	vndReach("received")
	s.sb.Disconnect()
	vndJoin()
}

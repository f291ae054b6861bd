package props

// Inputs of the kinds the documentation, the RFC and the project's tests name; mutations start here too.
var addressSeeds = []string{
	`user@example.com`,
	`John Doe <jdoe@machine.example>`,
	`"Joe Q. Public" <john.q.public@example.com>`,
	`Mary Smith <mary@x.test>, jdoe@example.org, Who? <one@y.test>`,
	`<boss@nil.test>, "Giant; \"Big\" Box" <sysservices@example.net>`,
	`A Group:Ed Jones <c@a.test>,joe@where.test,John <jdoe@one.test>;`,
	`Undisclosed recipients:;`,
	`undisclosed-recipients:`,
	`Pete(A nice \) chap) <pete(his account)@silly.test(his host)>`,
	"A Group(Some people)\r\n     :Chris Jones <c@(Chris's host.)public.example>,\r\n         joe@example.org,\r\n  John <jdoe@one.test> (my dear friend); (the end of the group)",
	`(Empty list)(start)Hidden recipients  :(nobody(that I know))  ;`,
	`Joe Q. Public <john.q.public@example.com>`,
	`Mary Smith <@node.test:mary@example.net>, , jdoe@test  . example`,
	`=?utf-8?q?J=C3=B6rg_Doe?= <joerg@example.com>`,
	`=?ISO-8859-1?Q?Andr=E9?= Pirard <PIRARD@vm1.ulg.ac.be>`,
	`=?ISO-8859-1?B?SvZyZw==?= <joerg@example.com>, =?utf-8?q?a?= =?utf-8?q?b?= <c@d>`,
	`user@[1.2.3.4]`, `user@[IPv6:2001:db8::1]`,
	`"much.more unusual"@example.com`,
	`"very.unusual.\"@\".unusual.com"@example.com`,
	`admin@mailserver1`, `a@b.`, `a.@b`, `a@b:25`, `<>`, `<> , <>`,
	`"Mario Rossi: Mario.Rossi@example.com"`,
	`"group: a@b, c@d";`,
	`Name with @ sign. <x@y>`,
	`用户 <用户@例子.公司>`, `😀 <😀@😀>`,
	`test@io (comment)`, "\r\n test@iana.org", `(a(b)c)test@iana.org`,
	`a@b;c@d`, `a@b,,c@d,`, `,a@b`,
	`" " <a@b>`, `"\\" <a@b>`, `""@b`, `"a"."b".c@d`,
	`<@a,@b:c@d>`, `<,,@a:c@d>`,
	`=?x?q?y?= <a@b>`, `"=?utf-8?q?y?=" <a@b>`, `=?utf-8?q?y?=@b`,
}

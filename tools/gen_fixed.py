# Rewrites the fixed: lines of known-findings.txt from the fix commits of /repo.
import subprocess
M = """8806c0b C22;2f1bbff C07;0dbe1bc C03;f44cc52 C07;b59d1e4 C08;73119b3 C08;563bd67 C23;0355708 C03;e94ca7a C03;b6e0bb8 C01;c7ea281 C05;fbb5a3d C07;6e13a79 C05;ba2a158 C06;4bc16ed C06;0648075 C07;253076c C07;a4f4260 C06;cacb3dd C02;a39c832 C23;c14dcf7 C19;f221b8c C10;d0144f5 C05;fb79a14 C05;8a7c44e C05;79df8e8 C04;b931e5d C04;37367d1 C04;afd2a74 C04;89e14d8 C23;0eb7d61 C11;ba7c456 C11;fe0ef6f C12;da7ff68 C11;1933f73 C18;e4fd30c C18;8076587 C18;219ef32 C20;bd15ad2 C20;9656209 C20;c81177e C20;9029d35 C20;bd81e69 C20;6d00642 C20;681094e C13;d9d9ca9 C13;005b2e2 C13;b54c487 C13;076b37f C13;f5d0590 C14;102239e C14;e2cada8 C14;8a1e051 C14;4c96904 C19;3e69448 C15;6a7f3e3 C15;88afd69 C15;412dc36 C17;351bf7e C14;b1f76c3 C14;059ade5 C14;eafe7ad C14;66bb361 C14;657f04c C14;7c64ddf C14;27d7b60 C16;440c521 C16;8270483 C17;207c68c C17;16e4e0f C21;b5d2180 C21;30d1404 C21;82e3361 C21;dce3173 C21;e4334e1 C21;cf71765 C21;294f236 C21;2050e62 C06;1c3cd8d C11;5ffdc92 C15;eaf4ef8 C16;0d2cbc3 C17;7e2902b C17;14b5dce C17;1717e30 C17;139fcd6 C17;e5eabde C17;97a8f09 C14;4b46739 C20;86a5d42 C21;ce1dfa1 C21;8e2c05f C23;f80ff54 C17;f27587c C18;25ad2f4 C21;28ddc49 C24;63c2cec C24;22c5c46 C24;bcb5893 C24;779d4fa C24;7220386 C24;d0ec49a C25;e4d8436 C25;122f213 C25;32a6383 C25;522485d C25"""
M = dict(x.split() for x in M.split(';'))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'a99f380..HEAD'], capture_output=True, text=True).stdout.splitlines()
keep = [l for l in open('/verif/known-findings.txt') if not l.startswith('fixed:')]
out = []
for l in log:
    h, s = l.split(' ', 1)
    assert s.startswith('fix: '), l
    assert h[:7] in M, 'no property for ' + l
    out.append('fixed: property=%s %s %s\n' % (M[h[:7]], h[:7], s[5:]))
open('/verif/known-findings.txt', 'w').writelines(keep + out)
print(len(out), 'fixed lines')

# C24: the Ruby interface, run in the real interpreter over the real library (AddressSanitizer + UBSan).
# Protocol of run_check.py: --seed --cases --shard --shards --from --only --result --progress --thorough
require 'zlib'
opt = { 'seed' => 1, 'cases' => nil, 'shard' => 0, 'shards' => 1, 'from' => 0, 'only' => nil, 'cpu' => 10 }
verbose = thorough = false
args = ARGV.dup
while (a = args.shift)
  case a
  when '-v' then verbose = true
  when '--thorough' then thorough = true
  when '--progress' then opt['progress'] = args.shift
  when '--result' then opt['result'] = args.shift
  else opt[a.sub('--', '')] = args.shift.to_i
  end
end
opt['cases'] ||= thorough ? 600000 : 24000
opt['cpu'] = 20 if opt['cpu'] > 20
CPU_S = opt['cpu']
RULE = 'one case = a history of load / get_data / rejected load / C++-side change / collection over 1..3 Ruby containers; distinct = different operations and data; non-trivial = at least one nested value was read back'

module GenericContainer
  @libGenericContainer = ENV['GCLIB']
end
$VERBOSE = nil
load ENV['GCRB']
$VERBOSE = nil
GM = ::GenericContainer
module HELP
  extend FFI::Library
  ffi_lib ENV['GCLIB']
  attach_function :H_long, [ :pointer, :int64 ], :void
  attach_function :H_complex, [ :pointer, :double, :double ], :void
  attach_function :H_type, [ :pointer ], :int
  attach_function :H_none, [ :pointer ], :void
  attach_function :H_vec_bool, [ :pointer, :pointer, :int ], :void
  attach_function :H_vec_int, [ :pointer, :pointer, :int ], :void
  attach_function :H_vec_real, [ :pointer, :pointer, :int ], :void
  attach_function :H_vec_complex, [ :pointer, :pointer, :int ], :void
  attach_function :H_mat_real, [ :pointer, :pointer, :int, :int ], :void
  attach_function :H_mat_complex, [ :pointer, :pointer, :int, :int ], :void
end

class Violation < RuntimeError
  attr_reader :key
  def initialize(key, msg) super(msg); @key = key; end
end
def req(c, key, msg) raise Violation.new(key, msg) unless c; end

$counts = Hash.new(0)
def count(n, k = 1) $counts[n] += k; end

# an object that can be read as a hash
class HashLike
  def initialize(h) @h = h; end
  def to_hash() @h; end
  def inspect() 'as hash ' + @h.inspect; end
end

class Gen
  def initialize(seed, idx, thorough) @r = Random.new((seed * 1_000_003 + idx) & 0x7fffffffffffffff); @big = thorough; @left = 0; @bytes = 0; end
  # one value of bounded total size
  def fresh(depth = 0) @left = chance(1, 20) ? 4000 : 200; @bytes = chance(1, 10) ? 150_000 : 3000; v = value(depth); v.nil? ? 0 : v; end
  def below(n) n <= 0 ? 0 : @r.rand(n); end
  def chance(a, b) @r.rand(b) < a; end
  def int
    case below(6)
    when 0 then below(10)
    when 1 then [ -2**31, 2**31 - 1, 0, -1, 1, 2**30, -2**30, 16777217, 2**31 - 2 ][below(9)]
    when 2 then below(2**32) - 2**31
    else below(2000) - 1000
    end
  end
  def float
    case below(6)
    when 0 then [ 0.0, -0.0, 1.5, -1.0e308, 5.0e-324, 2.2250738585072014e-308, Float::MAX, Float::EPSILON, 0.1, 1.0/3, 9007199254740993.0 ][below(11)]
    when 1 then [ Float::INFINITY, -Float::INFINITY ][below(2)]
    when 2 then [ below(1 << 30) | (below(1 << 30) << 30) | (below(16) << 60) ].pack('Q').unpack1('D').then { |x| x.nan? ? 0.5 : x }
    else @r.rand * (10.0 ** (below(40) - 20)) * (chance(1, 2) ? 1 : -1)
    end
  end
  def bytes
    n = chance(1, 60) ? below(70000) : chance(1, 8) ? below(300) : below(12)
    n = [ n, @bytes ].min; @bytes -= n
    case below(4)
    when 0 then (0...n).map { 32 + below(95) }.pack('C*')
    when 1 then (0...n).map { 1 + below(255) }.pack('C*')
    when 2 then n > 300 ? "z" * n : [ 'true', 'false', '', ' ', "\n", "map_type", "vec_int_type", "1", "0", "nil", "\u00e9\u4e16", "a\"b", "a\\", "%s", "# # x" ][below(15)].dup.force_encoding('BINARY')
    else (0...n).map { 97 + below(26) }.pack('C*')
    end
  end
  def str
    s = bytes
    return s if s.bytes.any? { |b| b > 127 } || chance(3, 4)
    s.encode('UTF-8')
  end
  def scalar
    case below(7)
    when 0 then chance(1, 2)
    when 1, 2 then int
    when 3 then float
    when 4 then str
    when 5 then ('s%d' % below(99)).to_sym
    when 6 then chance(1, 6) ? nil : int
    else int
    end
  end
  def array(depth)
    n = chance(1, 50) ? below(2000) : chance(1, 5) ? below(40) : below(6)
    n = [ n, @left ].min; @left -= n
    case below(11)
    when 9 # a long list of one kind with another kind late in it
      n = [ 8 + below(chance(1, 4) ? 600 : 80), @left ].min; @left -= n; k = below(5)
      h = Array.new(n) { case k when 0 then 'w%d' % below(99) when 1 then int when 2 then float when 3 then chance(1, 2) else chance(1, 2) ? :sym : 'str' end }
      h[n - 1 - below([ n / 3, 1 ].max)] = chance(1, 4) ? int : chance(1, 3) ? float : chance(1, 2) ? str : value(depth + 1) if n > 0
      h
    when 10 then m = below(4); Array.new([ n, 60 ].min) { chance(1, 9) ? value(depth + 1) : chance(1, 2) ? { a: below(9) } : Array.new(m) { int } }
    when 0 then Array.new(n) { int }
    when 1 then Array.new(n) { float }
    when 2 then Array.new(n) { chance(1, 2) }
    when 3 then Array.new(n) { str }
    when 4 then Array.new(n) { ('s%d' % below(99)).to_sym }
    when 5 then Array.new(n) { scalar }
    when 6 then h = Array.new(n) { int }; h.insert(below(n + 1), chance(1, 3) ? float : chance(1, 3) ? nil : chance(1, 2) ? str : value(depth + 1)); h
    when 7 then m = below(4); Array.new([n, 30].min) { Array.new(m) { chance(1, 3) ? float : int } }
    else Array.new([n, 12].min) { value(depth + 1) }
    end
  end
  def key(i)
    case below(6)
    when 0 then ('k%d' % i).to_sym
    when 1 then 'k%d' % i
    when 2 then i
    when 3 then (bytes[0, 40] + ('|%d' % i)).to_sym
    when 4 then i == 0 ? '' : 'q%d' % i
    else ('key_%d' % i).to_sym
    end
  end
  def hash(depth)
    n = chance(1, 60) ? below(600) : below(6)
    n = [ n, @left ].min; @left -= n
    h = {}
    n.times { |i| h[key(i)] = value(depth + 1) }
    chance(1, 10) ? HashLike.new(h) : h
  end
  def value(depth = 0)
    return scalar if depth > 5
    case below(depth == 0 ? 5 : 8)
    when 0, 1 then hash(depth)
    when 2, 3 then array(depth)
    else scalar
    end
  end
  def deep
    v = fresh(4)
    (5 + below(120)).times { |i| v = chance(1, 2) ? { ('d%d' % i).to_sym => v } : [ v ] }
    v
  end
end

# what must be read back: booleans are 1/0, symbols are strings, keys are symbols (compared as bytes)
def norm(v)
  case v
  when true then 1
  when false then 0
  when Symbol then v.to_s.b
  when String then v.b
  when Array then v.map { |x| norm(x) }
  when HashLike then norm(v.to_hash)
  when Hash then h = {}; v.each { |k, x| h[k.to_s.b] = norm(x) }; h
  else v
  end
end
# a list that holds a float may be widened as a whole (never rounded); other integers stay integers
def same(a, b, widen = false)
  case a
  when Array then w = a.any?(Float); b.is_a?(Array) && a.length == b.length && a.each_index.all? { |i| same(a[i], b[i], w) }
  when Hash then b.is_a?(Hash) && a.length == b.length && a.all? { |k, x| b.key?(k) && same(x, b[k]) }
  when Float then b.is_a?(Float) && [ a ].pack('G') == [ b ].pack('G')
  when Integer then b.is_a?(Integer) ? a == b : (widen && b.is_a?(Float) && b == a)
  when nil then b.nil?
  else a == b
  end
end
def short(v) s = v.inspect; s.length > 600 ? s[0, 600] + '...' : s; end
def first_diff(a, b, at = '')
  if a.is_a?(Array) && b.is_a?(Array) && a.length == b.length
    w = a.any?(Float)
    a.each_index { |i| return first_diff(a[i], b[i], at + "[#{i}]") unless same(a[i], b[i], w) }
  elsif a.is_a?(Hash) && b.is_a?(Hash) && a.keys.sort == b.keys.sort
    a.each_key { |k| return first_diff(a[k], b[k], at + "[#{k.inspect}]") unless same(a[k], b[k]) }
  end
  "#{at}: expected #{short a} read #{short b}"
end
def leaves(v) v.is_a?(Array) ? v.sum { |x| leaves(x) } : v.is_a?(Hash) ? v.sum { |_, x| leaves(x) } : 1; end

def check_read(gc, want, trace)
  got = norm(gc.get_data)
  trace << "get_data -> #{short got}"
  count('reads'); count('values read', leaves(want))
  req(same(want, got), 'wrong-data', first_diff(want, got))
end

FILLED = [ 1, [ 0.0, 0.0, 123.0 ] + [ 0.0 ] * 7, { 'pippo' => 13, 'pluto' => 1, 'paperino' => 3, 'aaa' => 'stringa1', 'bbb' => 'stringa2' },
           %w[string1 string2 string3 string4], 1.3, 'pippo', { 'aaa' => 123, 'bbb' => 3.4, 'vector' => [ 12, 10, 1 ] },
           [ 123, 3.14, 'nonna papera', [ [ 1.0, 0.0 ], [ 2.0, 0.0 ], [ 3.0, 0.0 ], [ -12.0, 2.0 ] ] ],
           [ [ 0.0, 3.0 ], [ 0.0, 2.0 ] ], [ [ [ 0.0, 0.0 ], [ 1.0, -1.0 ] ], [ [ 0.0, 0.0 ], [ 2.0, 2.0 ] ] ], 1 ]

def buf(kind, v) p = FFI::MemoryPointer.new(kind, [v.length, 1].max); kind == :int32 ? p.write_array_of_int32(v) : p.write_array_of_double(v); p; end

# data that only C++ code produces
def cpp_side(g, gc, trace)
  p = gc.get_pointer
  n = g.below(9)
  nr, nc = g.below(5), g.below(5)
  k = g.below(8)
  trace << "C++ stores kind #{k} (#{n}, #{nr} x #{nc})"
  case k
  when 0 then v = g.chance(1, 2) ? g.below(2**62) * (g.chance(1, 2) ? 1 : -1) : g.int; HELP.H_long(p, v); v
  when 1 then v = Array.new(n) { g.below(2) }; HELP.H_vec_bool(p, buf(:int32, v), n); v
  when 2 then v = Array.new(n) { g.int }; HELP.H_vec_int(p, buf(:int32, v), n); v
  when 3 then v = Array.new(n) { g.float }; HELP.H_vec_real(p, buf(:double, v), n); v
  when 4 then v = Array.new(2 * n) { g.float }; HELP.H_vec_complex(p, buf(:double, v), n); v.each_slice(2).to_a
  when 5 then v = Array.new(nr * nc) { g.float }; HELP.H_mat_real(p, buf(:double, v), nr, nc); nc == 0 ? [ [] ] * nr : v.each_slice(nc).to_a
  when 6 then v = Array.new(2 * nr * nc) { g.float }; HELP.H_mat_complex(p, buf(:double, v), nr, nc); nc == 0 ? [ [] ] * nr : v.each_slice(2).to_a.each_slice(nc).to_a
  else HELP.H_none(p); nil
  end
end

def drop_many(n) Array.new(n) { |i| x = GM::GenericContainer.new; x.load([ i ] * 50); x.id.dup }; end

def run_case(g, trace)
  cs = Array.new(1 + g.below(3)) { GM::GenericContainer.new }
  want = Array.new(cs.length, :none)
  nontrivial = false
  (2 + g.below(10)).times do
    i = g.below(cs.length); gc = cs[i]
    case g.below(13)
    when 12
      if want[i] != :none && short(want[i]).length < 200
        trace << "c#{i}.dump"
        req(gc.dump == 0, 'dump-fails', 'dump'); check_read(gc, want[i], trace); count('dumps')
      end
    when 0, 1, 2, 3
      v = g.chance(1, 25) ? g.deep : g.fresh
      trace << "c#{i}.load #{short v}"
      gc.load v; count('loads')
      want[i] = norm(v)
      if g.chance(2, 3) then check_read(gc, want[i], trace); nontrivial = true if want[i].is_a?(Array) || want[i].is_a?(Hash) end
    when 4, 5
      cs.each_index { |j| check_read(cs[j], want[j], trace) unless want[j] == :none }
      nontrivial = true
    when 6, 7
      # a value the interface refuses, somewhere inside a larger one
      bad = [ 2**31, -2**31 - 1, 2**40, 2**80, "zero\0byte", :"zero\0sym" ][g.below(6)]
      v = case g.below(5)
          when 0 then bad
          when 1 then { a: 1, b: { c: [ 1, { d: bad } ] }, e: 2 }
          when 2 then [ 1, 2, bad ]
          when 3 then [ [ 1 ], { x: [ bad, 1 ] }, 3 ]
          else { a: [ { b: [ { c: bad } ] } ] }
          end
      trace << "c#{i}.load (must be refused) #{short v}"
      ok = begin; gc.load v; false; rescue Violation; raise; rescue StandardError => e; trace << "refused: #{e.class}"; true; end
      req(ok, 'bad-value-accepted', "#{short v} was accepted")
      count('refused loads')
      want[i] = :none
      # the container stays usable and the others are not disturbed
      v = g.fresh(1); trace << "c#{i}.load #{short v}"
      gc.load v; want[i] = norm(v); check_read(gc, want[i], trace)
      cs.each_index { |j| check_read(cs[j], want[j], trace) unless want[j] == :none }
    when 8
      gc.load 0
      want[i] = cpp_side(g, gc, trace); count('values put by C++')
      check_read(gc, want[i], trace)
    when 9
      trace << "c#{i}.fill_for_test"
      gc.fill_for_test; want[i] = norm(FILLED); check_read(gc, want[i], trace); count('test fills')
    when 10
      # nil inside data is "no value"
      v = g.chance(1, 2) ? [ nil, g.scalar, nil ] : { a: nil, b: g.scalar, c: [ nil, { d: nil } ] }
      trace << "c#{i}.load #{short v}"
      gc.load v; want[i] = norm(v); check_read(gc, want[i], trace); nontrivial = true
    when 11
      if g.chance(1, 40)
        GC.start; before = ObjectSpace.each_object(GM::GenericContainer).count
        ids = drop_many(100); 3.times { drop_many(1); GC.start }
        after = ObjectSpace.each_object(GM::GenericContainer).count
        trace << "100 containers dropped, alive before #{before} after #{after}"
        count('containers dropped', 100)
        req(after - before < 60, 'not-released', "#{after - before} of 100 dropped containers are still alive after a collection")
        # the library must have let the contents go as well: what the name stands for is then empty
        held = ids.count { |id| full = HELP.H_type(GM.GC_mem_ptr(id)) != 0; GM.GC_delete(id) unless full; full }
        req(held < 60, 'contents-not-released', "the library still holds the contents of #{held} of 100 dropped containers")
        cs.each_index { |j| check_read(cs[j], want[j], trace) unless want[j] == :none }
      else
        cs[i] = GM::GenericContainer.new; want[i] = :none; trace << "c#{i} = new"
        count('containers replaced')
        # a fresh container holds nothing
        check_read(cs[i], nil, trace)
      end
    end
  end
  cs.each_index { |j| check_read(cs[j], want[j], trace) unless want[j] == :none }
  nontrivial
end

$stdout.sync = true
out = $stdout
prog = opt['progress'] ? File.open(opt['progress'], 'wb+') : nil
prog.truncate(32 + (1 << 16)) if prog
def esc(s) s.to_s.b.gsub(/[\\\n\t\r]/) { |c| { "\\" => '\\\\', "\n" => '\\n', "\t" => '\\t', "\r" => '\\r' }[c] }.gsub(/[^ -~]/n) { |c| '\\x%02x' % c.ord }; end
cases = nontriv = 0
viol, samples, sigs = [], [], {}
idxs = opt['only'] ? [ opt['only'] ] : (opt['from']...opt['cases']).select { |i| i % opt['shards'] == opt['shard'] }
devnull = File.open(File::NULL, 'w')
idxs.each do |idx|
  prog.pwrite([ idx, 1, 0, 0 ].pack('Q4'), 0) if prog
  t = Process.clock_gettime(Process::CLOCK_PROCESS_CPUTIME_ID)
  Process.setrlimit(Process::RLIMIT_CPU, t.to_i + CPU_S + 1, Process.getrlimit(Process::RLIMIT_CPU)[1])
  trace = []
  begin
    saved = $stdout; $stdout = devnull unless verbose   # the interface talks about values it does not manage
    nontriv += 1 if run_case(Gen.new(opt['seed'], idx, thorough), trace)
  rescue Violation => e
    viol << [ idx, e.key, e.message, trace.join("\n") ]
  rescue Exception => e
    raise if e.is_a?(SignalException) || e.is_a?(SystemExit)
    viol << [ idx, 'exception', "#{e.class}: #{e.message} at #{(e.backtrace || []).reject { |l| l.include?('p_C24.rb') }[0]}", trace.join("\n") ]
  ensure
    $stdout = saved
  end
  cases += 1
  text = trace.join("\n")
  sigs[Zlib.crc32(text) | (text.length << 32)] = true
  samples << text[0, 600] if samples.length < 2 && text.length > 200
  break if viol.length >= 5
end
prog.pwrite([ idxs[-1] || 0, 2, 0, 0 ].pack('Q4'), 0) if prog
if opt['result']
  File.open(opt['result'] + '.sig', 'wb') { |f| f.write(sigs.keys.pack('Q*')) }
  File.open(opt['result'] + '.cov', 'wb') { |f| }
  File.open(opt['result'], 'wb') do |f|
    f.puts "cases\t#{cases}", "nontrivial\t#{nontriv}", "rule\t#{esc RULE}"
    $counts.each { |k, v| f.puts "count\t#{k}\t#{v}" }
    samples.each { |s| f.puts "sample\t#{esc s}" }
    viol.each { |i, k, m, tr| f.puts "violation\t#{i}\t#{esc k}\t#{esc m}\t#{esc tr[0, 200000]}" }
    f.puts 'end'
  end
end
viol.each { |i, k, m, tr| out.puts "case #{i} #{k}: #{m}"; out.puts tr if verbose }
exit!(viol.empty? ? 0 : 1)

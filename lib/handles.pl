# Runs the traces of Handles.tla: each operation on Perl variables @p and @q, then prints what can be seen.
use strict; use warnings; use JSON::PP; use Scalar::Util qw(weaken blessed);
use lib "$ARGV[0]";
use SPVM (); 
my $api; BEGIN { SPVM->import('Hn'); $api = SPVM::api() }
$api = SPVM::api();
our (@p, @q);
sub show { my $x = $_[0]; return "u" unless defined $x; return "?" . ref $x unless blessed $x; my $t = $x->__get_type_name; $t eq 'Hn' ? $x->id . "" : $t eq 'Hn[]' ? "A" : $t eq 'object[]' ? "O" : $t =~ /anon/ ? "C" : "?$t" }
my %op = (
  new => sub { my ($u, $i, $d) = @_; $p[$i] = SPVM::Hn->new($u, $d); return },
  temp => sub { my ($u, $d) = @_; SPVM::Hn->new($u, $d); return },
  newa => sub { my ($u, $i) = @_; $p[$i] = SPVM::Hn->new_a($u + 1, SPVM::Hn->new($u, 0)); return },
  copy => sub { my ($u, $i, $j) = @_; $p[$i] = $p[$j]; return },
  drop => sub { my ($u, $i) = @_; $p[$i] = undef; return },
  weakp => sub { my ($u, $i) = @_; weaken($p[$i]); return },
  push => sub { my ($u, $i, $j) = @_; $q[$i] = $p[$j]; return },
  shift => sub { my ($u, $i, $j) = @_; $p[$i] = $q[$j]; $q[$j] = undef; return },
  set => sub { my ($u, $i, $f, $j) = @_; $f == 1 ? $p[$i]->set_a($p[$j]) : $p[$i]->set_w($p[$j]); return },
  setnew => sub { my ($u, $i, $f) = @_; $f == 1 ? $p[$i]->set_a(SPVM::Hn->new($u, 0)) : $p[$i]->set_w(SPVM::Hn->new($u, 0)); return },
  get => sub { my ($u, $i, $f, $j) = @_; $p[$j] = $f == 1 ? $p[$i]->a : $f == 2 ? $p[$i]->w : $p[$i]->l; return },
  me => sub { my ($u, $i, $j) = @_; $p[$j] = $p[$i]->me; return },
  chain => sub { my ($u, $i, $j) = @_; $p[$j] = $p[$i]->a->w; return },
  setg => sub { my ($u, $i) = @_; SPVM::Hn->SET_G($p[$i]); return },
  getg => sub { my ($u, $i) = @_; $p[$i] = SPVM::Hn->G; return },
  swapg => sub { my ($u, $i, $j) = @_; $p[$j] = SPVM::Hn->swapg($p[$i]); return },
  setl => sub { my ($u, $i, $j) = @_; $p[$i]->set_l($p[$j]); return },
  setlp => sub { my ($u, $i, $a, $b) = @_; $p[$i]->set_l([$p[$a], $p[$b]]); return },
  arr => sub { my ($u, $i, $a, $b) = @_; $p[$i] = $api->new_object_array("Hn[]", [$p[$a], $p[$b]]); return },
  arrv => sub { my ($u, $i, $a, $b) = @_; $p[$i] = SPVM::Hn->both($p[$a], $p[$b]); return },
  opt => sub { my ($u, $i, $a) = @_; $p[$i] = $api->new_options({k => $p[$a]}); return },
  optget => sub { my ($u, $i, $a) = @_; $p[$i] = $p[$a]->get(1); return },
  aget => sub { my ($u, $i, $x, $a) = @_; $p[$i] = $p[$a]->get($x - 1); return },
  aset => sub { my ($u, $a, $x, $i) = @_; $p[$a]->set($x - 1, $p[$i]); return },
  elems => sub { my ($u, $i, $a) = @_; $p[$i] = $p[$a]->to_elems->[1]; return },
  wide => sub { my ($u, $i, $a, $b) = @_;
    $p[$i] = $api->new_object_array("Hn[]", [@p[$a, $b, $a, $b, $b]])->to_elems->[4];
    my $o = $api->new_object_array("object[]", [@p[$a, $b, $a], $api->new_string("w"), undef]); @{$o->to_elems} == 5 or die; 
    my $s = $api->new_string_array([map { "w$_" } 1 .. 6]); join(",", map { "$_" } @{$s->to_elems}) eq "w1,w2,w3,w4,w5,w6" or die; join(",", @{$s->to_strings}) eq "w1,w2,w3,w4,w5,w6" or die; 
    my $m = $api->new_mulnum_array("Hn::M_2i[]", [map { {x => $_, y => -$_} } 1 .. 5]); $m->to_elems->[4]{y} == -5 or die;
    return },
  first => sub { my ($u, $i, $a, $b) = @_; $p[$i] = SPVM::Hn->first([$p[$a], $p[$b]]); return },
  clo => sub { my ($u, $i, $a) = @_; $p[$i] = SPVM::Hn->closure($p[$a]); return },
  run => sub { my ($u, $i, $a) = @_; $p[$i] = SPVM::Hn->run($p[$a]); return },
  fail => sub { my ($u, $i, $j, $x) = @_; failing($x, sub { $p[$i]->fail($p[$j], $x) }, sub { $p[$i]->refuse([$p[$j], $p[$i]], [1], {}) }); return },
  failnew => sub { my ($u, $i, $x) = @_; failing($x, sub { $p[$i]->fail(SPVM::Hn->new($u, 0), $x) }, sub { $p[$i]->refuse([SPVM::Hn->new($u, 0), $p[$i]], [1], {}) }); return },
  scope => sub { my ($u, $i, $j) = @_;
    eval { my $x = $p[$i]; my $y = SPVM::Hn->new($u, 0); my $z = SPVM::Hn->new($u + 1, 0); $y->set_a($z); $z->set_w($y); $y->set_l([$x, $z]); $p[$j] = undef; $y->fail($x, 1); };
    die "no exception" unless $@ =~ /boom 1/; $@ = ""; return },
  dieh => sub { my ($u, $i, $j) = @_; eval { die $p[$i] }; if (defined $p[$i]) { my $e = $@; $p[$j] = $e } $@ = ""; return },
);
sub failing { my ($x, $f, $g) = @_;
  eval { $x == 3 ? $g->() : $f->(); 1 } and die "no exception";
  die "wrong exception: $@" unless $x == 3 ? ($@ =~ /3|third|argument/ && $@ !~ /boom/) : $@ =~ /boom $x/;
  $@ = "";
}
my @log;
sub obs { my $base = $_[0]; SPVM::Hn->quiet; my $n = SPVM::Hn->logn; my @d = map { SPVM::Hn->logged($_) } 0 .. $n - 1; SPVM::Hn->log_clear;
  my %r = (p => [map { show($p[$_]) } 1 .. $_[1]], q => [map { show($q[$_]) } 1 .. 2], m => $api->get_memory_blocks_count - $base, d => [@d]); \%r }
my ($file, $np) = @ARGV[1, 2];
open my $fh, "<", $file or die; my $js = JSON::PP->new->canonical;
$| = 1;
SPVM::Hn->log_init;
{ eval { SPVM::Hn->new(0, 0)->fail(undef, 1) }; eval { SPVM::Hn->new(0, 0)->fail(undef, 4) }; $@ = ""; SPVM::Hn->quiet; SPVM::Hn->log_clear; }
while (my $l = <$fh>) {
  my ($id, $every, $tr) = @{$js->decode($l)};
  @p = (); @q = ();
  SPVM::Hn->quiet;
  my $base = $api->get_memory_blocks_count;
  my @out;
  for my $s (@$tr) { my ($op, $u) = @$s; my ($k, @a) = @$op; $op{$k}->($u, @a); push @out, obs($base, $np) if $every }
  push @out, obs($base, $np) unless $every;
  $_ = undef for @p, @q; SPVM::Hn->SET_G(undef);
  my $o = obs($base, $np); push @out, {d => $o->{d}, m => $o->{m}};
  print "$id ", $js->encode(\@out), "\n";
}
print "DONE\n";
# handles, in lexicals, globals and cycles of Perl data, are still there when the process ends
our $left = SPVM::Hn->new(1, 0); my $left2 = SPVM::Hn->new(2, 1); my $cyc = { h => SPVM::Hn->new(3, 0) }; $cyc->{me} = $cyc; SPVM::Hn->SET_G($left2); our @left = ($api->new_object_array("Hn[]", [$left2, $left]), $api->new_string("x"));

# Replays histories of InitOrder.tla against the run-time compiler: loads classes, initializes, calls; reports the log of every operation.
use strict; use warnings; use JSON::PP; use File::Path 'remove_tree';
use SPVM (); use SPVM::Builder::Native::Compiler; use SPVM::ExchangeAPI;
SPVM::api();
my ($dir, $file) = @ARGV; my $js = JSON::PP->new->canonical; $| = 1;
my $first = sub { my $m = "$_[0]"; $m =~ s/^\[Initialization Exception\]//; $m =~ s/[ ]*\n.*//s; $m };
open my $fh, "<", $file or die;
while (my $l = <$fh>) {
  my ($id, $files, $ops) = @{$js->decode($l)};
  my $d = "$dir/h$id"; mkdir $d or die "$d: $!";
  for my $n (keys %$files) { open my $w, ">", "$d/$n.spvm" or die; print $w $files->{$n}; close $w }
  my $c = SPVM::Builder::Native::Compiler->new; $c->add_include_dir($d);
  $c->set_start_file("start.pl"); $c->set_start_line(77); $c->compile("Lg");
  my $rt = $c->get_runtime; my $env = $rt->get_env; my $stack = $env->new_stack;
  my @more = map { $env->new_stack } 1 .. 2;
  my %api = map { ($_ => SPVM::ExchangeAPI->new(env => $env, stack => $_ ? $more[$_ - 1] : $stack)) } 0 .. 2;
  my (%anon, @out);
  for my $o (@$ops) {
    my ($ok, $msg) = (1, ""); my $k = $o->{o}; my $st = $o->{s} // 0; my $stk = $st ? $more[$st - 1] : $stack; my $api = $api{$st};
    my $n = $anon{$o->{c} // ""} // $o->{c};
    eval {
      if ($k eq "comp") { if (defined $o->{src}) { $anon{$o->{c}} = $c->compile_anon_class($o->{src}) } else { $c->set_start_file("start.pl"); $c->set_start_line(77); $c->compile($o->{c}) } }
      elsif ($k eq "init") { $env->call_init_methods($stk) }
      elsif ($k eq "get") { $api->call_method($n, "g") }
      elsif ($k eq "set") { $api->call_method($n, "s", $o->{n}) }
      elsif ($k eq "call") { $api->call_method($n, "INIT") }
      1 } or ($ok, $msg) = (0, $first->($@));
    $msg = join "\n", $msg, @{$c->get_error_messages} if !$ok && $k eq "comp";
    my $log = $api{0}->call_method("Lg", "take");
    push @out, { ok => $ok ? JSON::PP::true : JSON::PP::false, m => $msg, log => [grep { length } split /,/, defined $log ? "$log" : ""], l => [grep { $anon{$_} || !/^An/ && $rt->get_basic_type_by_name($_) } @{$o->{names}}] };
  }
  $env->destroy_class_vars($stack);
  print "$id ", $js->encode(\@out), "\n";
  remove_tree($d);
}
print "DONE\n";
